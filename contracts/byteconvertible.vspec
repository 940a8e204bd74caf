@mod byteconvertible
@trait ByteConvertible
    /// The serialized form
    spec fn bc_bytes(&self) -> Seq<u8>;
    /// What byte_size may count too much (0 except for the known finding in SVCB)
    spec fn bs_extra(&self) -> nat;
    /// What the value has to satisfy besides (a size limit for what does not appear in the octets)
    open spec fn bc_pre(&self) -> bool { true }
@fn ByteConvertible::byte_size
    requires self.bc_bytes().len() <= 0x7FFF_FFFF, self.bc_pre(),
    ensures r == self.bc_bytes().len() + self.bs_extra(),
@fn ByteConvertible::to_bytes
    requires self.bc_bytes().len() <= 0x7FFF_FFFF, self.bc_pre(),
    ensures r@ == self.bc_bytes(),
@trait CompressedByteConvertible
    /// No more octets than these are written
    spec fn c_len(&self) -> nat;
    /// A value the wire form can carry, all of whose names are in `u`
    spec fn c_pre(&self, u: ISet<Seq<Seq<u8>>>) -> bool;
    /// `n` octets from `off` on in the message `e` read back as this value
    spec fn c_post(&self, e: Seq<u8>, off: int, n: int) -> bool;
@fn CompressedByteConvertible::byte_size_compressed [params=self,names,offset]
    requires offset + self.c_len() <= 0x7FFF_FFFF,
    ensures r <= self.c_len(),
@fn CompressedByteConvertible::to_bytes_compressed [params=self,names,offset]
    requires offset + self.c_len() <= 0x7FFF_FFFF,
    ensures r@.len() <= self.c_len(),
        forall|e: Seq<u8>, u: ISet<Seq<Seq<u8>>>| #[trigger] c_in(old(names)@, e, u, offset as int) && ate(e, offset as int, r@) && self.c_pre(u)
            ==> c_in(final(names)@, e, u, offset + r@.len()) && self.c_post(e, offset as int, r@.len() as int),
@spec
@default ByteConvertible
    uninterp spec fn bc_bytes(&self) -> Seq<u8>;
    uninterp spec fn bs_extra(&self) -> nat;
@default TryFrom
    #[verifier::prophetic] uninterp spec fn tf_pre(v: $T) -> bool;
    #[verifier::prophetic] uninterp spec fn tf_post(v: $T, r: Result<Self, Self::Error>) -> bool;
@default From
    uninterp spec fn f_pre(v: $T) -> bool;
    uninterp spec fn f_post(v: $T, r: Self) -> bool;
@default Ord
    uninterp spec fn cmp_s(&self, o: &Self) -> Ordering;
@default CompressedByteConvertible
    uninterp spec fn c_len(&self) -> nat;
    uninterp spec fn c_pre(&self, u: ISet<Seq<Seq<u8>>>) -> bool;
    uninterp spec fn c_post(&self, e: Seq<u8>, off: int, n: int) -> bool;
