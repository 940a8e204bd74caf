@mod fqdn
@fn FQDN::iter
    ensures r@.len() == self.data@.len(), forall|k: int| 0 <= k < r@.len() ==> *(#[trigger] r@[k]) == self.data@[k],
@fn FQDN::new [params=name]
    ensures r.ls() == text_labels(stb(name)),
@head
    broadcast use axiom_str_empty;
@loop 1
    invariant strb_of(__src1@) == splits(stb(name), 46), $s@.len() == __src1@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == __src1@[k],
        bytes_of(__a1@) == nonempties(strb_of(__src1@).take($i as int)),
@lhead 1
    proof { lemma_text_step(strb_of(__src1@), $i as int); }
@lbefore 1
    proof { assert(strb_of(__src1@).take(0) =~= Seq::<Seq<u8>>::empty()); assert(bytes_of(__a1@) =~= Seq::<Seq<u8>>::empty()); }
@lafter 1
    proof { assert(strb_of(__src1@).take(__src1@.len() as int) =~= strb_of(__src1@)); }
@impl FQDN::From<&str>
    open spec fn f_pre(v: &str) -> bool { true }
    open spec fn f_post(v: &str, r: Self) -> bool { r.ls() == text_labels(stb(v)) }
@fn FQDN::From<&str>::from
@impl FQDN::From<&[&str]>
    open spec fn f_pre(v: &[&str]) -> bool { true }
    open spec fn f_post(v: &[&str], r: Self) -> bool { r.ls() == strb_of(v@) }
@fn FQDN::From<&[&str]>::from [params=value]
@loop 1
    invariant $s@.len() == value@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == value@[k],
        bytes_of(__a1@) =~= strb_of(value@).take($i as int),
@lafter 1
    proof { assert(strb_of(value@).take(value@.len() as int) =~= strb_of(value@)); }
@fn FQDN::append_label [params=self,name]
    ensures final(self).ls() == old(self).ls().push(stb(name)),
@impl FQDN::Display
    open spec fn disp(&self) -> Seq<u8> { disp_to(self.ls(), self.ls().len() as int) }
@fn FQDN::Display::fmt [params=self,f]
@head
    let ghost f0 = f.out@;
@loop 1
    invariant $s@.len() == self.data@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.data@[k],
        f.out@ =~= f0 + disp_to(self.ls(), $i as int),
@lhead 1
    proof { assert(self.ls()[$i as int] == self.data@[$i as int]@); }
@alt FQDN::Display::fmt
@head
    let ghost f0 = f.out@;
    proof { lemma_disp_join(self.ls(), self.ls().len() as int); }
@loop 1
    invariant $s@.len() == self.data@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.data@[k],
        f.out@ =~= f0 + disp_join(self.ls(), $i as int),
@lhead 1
    proof { assert(self.ls()[$i as int] == self.data@[$i as int]@); }
@impl FQDN::From<&[Vec<u8>]>
    open spec fn f_pre(v: &[Vec<u8>]) -> bool { true }
    open spec fn f_post(v: &[Vec<u8>], r: Self) -> bool { r.ls() == bytes_of(v@) }
@fn FQDN::From<&[Vec<u8>]>::from
@fn FQDN::is_root
    ensures r == (forall|i: int| 0 <= i < self.data@.len() ==> (#[trigger] self.data@[i])@.len() == 0),
@loop 1
    invariant $s@.len() == self.data@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.data@[k],
        __a1 == (forall|i: int| 0 <= i < $i ==> (#[trigger] self.data@[i])@.len() == 0),
