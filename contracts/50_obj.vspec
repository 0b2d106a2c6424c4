=== fn ber::ber::BerObjectContent::tag
params: self
ret: r
spec:
    ensures r == content_tag(*self),
    decreases self,
=== fn ber::ber::BerObject::from_obj
params: c
ret: r
spec:
    ensures r.content == c, r.header == uni_header(content_tag(c)),
=== fn ber::ber::<BerObject as From_BerObjectContent>::from
params: c
ret: r
spec:
    ensures r.content == c, r.header == uni_header(content_tag(c)),
=== fn ber::ber::<BerObject as From_Oid>::from
params: o
ret: r
spec:
    ensures r.content == BerObjectContent::OID(o), r.header == uni_header(Tag::Oid),
=== fn ber::ber::BerObject::from_int_slice
params: i
ret: r
spec:
    ensures r.content == BerObjectContent::Integer(i), r.header == uni_header(Tag::Integer),
=== fn ber::ber::BerObject::from_seq v=Sequence; ber::ber::BerObject::from_set v=Set
params: l
ret: r
spec:
    ensures r.content == BerObjectContent::{v}(l), r.header == uni_header(Tag::{v}),
=== fn ber::ber::BerObject::set_raw_tag
params: self raw
ret: r
spec:
    ensures
        r.content == self.content, r.header.class == self.header.class, r.header.constructed == self.header.constructed, r.header.tag == self.header.tag,
        r.header.length == self.header.length, hv(r.header).raw == match raw { Some(x) => Some(x@), None => None },
closure 0: |x: &'a [u8]| -> (r: &'a [u8])
    ensures r == x,
=== fn ber::ber::BerObjectContent::as_bool
params: self
ret: r
spec:
    ensures r is Ok <==> *self is Boolean, r is Ok ==> r->Ok_0 == self->Boolean_0,
=== fn ber::ber::BerObjectContent::as_oid
params: self
ret: r
spec:
    ensures
        r is Ok <==> *self is OID || *self is RelativeOID,
        *self is OID ==> *r->Ok_0 == self->OID_0, *self is RelativeOID ==> *r->Ok_0 == self->RelativeOID_0,
=== fn ber::ber::BerObjectContent::as_oid_val
params: self
ret: r
spec:
    ensures
        r is Ok <==> *self is OID || *self is RelativeOID,
        *self is OID ==> r->Ok_0 == self->OID_0, *self is RelativeOID ==> r->Ok_0 == self->RelativeOID_0,
=== fn ber::ber::BerObjectContent::as_optional
params: self
ret: r
spec:
    ensures
        r is Ok <==> *self is Optional,
        *self is Optional ==> match self->Optional_0 { Some(o) => r->Ok_0 is Some && *r->Ok_0->Some_0 == *o, None => r->Ok_0 is None },
=== fn ber::ber::BerObjectContent::as_tagged
params: self
ret: r
spec:
    ensures
        r is Ok <==> *self is Tagged,
        r is Ok ==> r->Ok_0.0 == self->Tagged_0 && r->Ok_0.1 == self->Tagged_1 && *r->Ok_0.2 == *self->Tagged_2,
=== fn ber::ber::BerObjectContent::as_bitstring_ref
params: self
ret: r
spec:
    ensures r is Ok <==> *self is BitString, r is Ok ==> *r->Ok_0 == self->BitString_1,
=== fn ber::ber::BerObjectContent::as_bitstring
params: self
ret: r
spec:
    ensures r is Ok <==> *self is BitString, r is Ok ==> r->Ok_0 == self->BitString_1,
=== fn ber::ber::BerObjectContent::as_sequence v=Sequence; ber::ber::BerObjectContent::as_set v=Set
params: self
ret: r
spec:
    ensures r is Ok <==> *self is {v}, r is Ok ==> *r->Ok_0 == self->{v}_0,
=== fn ber::ber::BerObjectContent::as_slice
params: self
ret: r
spec:
    ensures match slice_of(cv(*self)) { Some(s) => r is Ok && r->Ok_0@ == s, None => r is Err },
entry:
    broadcast use lemma_sbytes;
=== fn ber::ber::BerObjectContent::as_str
params: self
ret: r
spec:
    ensures cv(*self) is Str ==> r is Ok && sbytes(r->Ok_0) == cv(*self)->Str_1, !(cv(*self) is Str) ==> r is Err,
=== fn ber::ber::BerObject::as_i64 t=i64; ber::ber::BerObject::as_i32 t=i32
params: self
ret: r
spec:
    ensures self.content is Integer ==> drq(r, {t}_val(self.content->Integer_0@)), !(self.content is Integer) ==> r is Err && ek(r->Err_0) == EK::Other,
=== fn ber::ber::BerObject::as_u64 t=u64; ber::ber::BerObject::as_u32 t=u32
params: self
ret: r
spec:
    requires self.content is BitString ==> len_ok(self.content->BitString_1.data@),
    ensures
        self.content is Integer ==> drq(r, {t}_val(self.content->Integer_0@)),
        self.content is BitString ==> drq(r, bits_{t}(self.content->BitString_0 as nat, self.content->BitString_1.data@)),
        self.content is Enum ==> (if self.content->Enum_0 <= {t}::MAX { r is Ok && r->Ok_0 == self.content->Enum_0 } else { r is Err && ek(r->Err_0) == EK::TooLarge }),
        !(self.content is Integer || self.content is BitString || self.content is Enum) ==> r is Err && ek(r->Err_0) == EK::Other,
=== fn ber::ber::BerObject::as_bool
params: self
ret: r
spec:
    ensures r is Ok <==> self.content is Boolean, r is Ok ==> r->Ok_0 == self.content->Boolean_0,
=== fn ber::ber::BerObject::as_oid
params: self
ret: r
spec:
    ensures
        r is Ok <==> self.content is OID || self.content is RelativeOID,
        self.content is OID ==> *r->Ok_0 == self.content->OID_0, self.content is RelativeOID ==> *r->Ok_0 == self.content->RelativeOID_0,
=== fn ber::ber::BerObject::as_oid_val
params: self
ret: r
spec:
    ensures
        r is Ok <==> self.content is OID || self.content is RelativeOID,
        self.content is OID ==> r->Ok_0 == self.content->OID_0, self.content is RelativeOID ==> r->Ok_0 == self.content->RelativeOID_0,
=== fn ber::ber::BerObject::as_optional
params: self
ret: r
spec:
    ensures
        r is Ok <==> self.content is Optional,
        self.content is Optional ==> match self.content->Optional_0 { Some(o) => r->Ok_0 is Some && *r->Ok_0->Some_0 == *o, None => r->Ok_0 is None },
=== fn ber::ber::BerObject::as_tagged
params: self
ret: r
spec:
    ensures
        r is Ok <==> self.content is Tagged,
        r is Ok ==> r->Ok_0.0 == self.content->Tagged_0 && r->Ok_0.1 == self.content->Tagged_1 && *r->Ok_0.2 == *self.content->Tagged_2,
=== fn ber::ber::BerObject::as_bitstring_ref
params: self
ret: r
spec:
    ensures r is Ok <==> self.content is BitString, r is Ok ==> *r->Ok_0 == self.content->BitString_1,
=== fn ber::ber::BerObject::as_bitstring
params: self
ret: r
spec:
    ensures r is Ok <==> self.content is BitString, r is Ok ==> r->Ok_0 == self.content->BitString_1,
=== fn ber::ber::BerObject::as_sequence v=Sequence; ber::ber::BerObject::as_set v=Set
params: self
ret: r
spec:
    ensures r is Ok <==> self.content is {v}, r is Ok ==> *r->Ok_0 == self.content->{v}_0,
=== fn ber::ber::BerObject::as_slice
params: self
ret: r
spec:
    ensures match slice_of(cv(self.content)) { Some(s) => r is Ok && r->Ok_0@ == s, None => r is Err },
=== fn ber::ber::BerObject::as_str
params: self
ret: r
spec:
    ensures cv(self.content) is Str ==> r is Ok && sbytes(r->Ok_0) == cv(self.content)->Str_1, !(cv(self.content) is Str) ==> r is Err,
=== fn ber::ber::BerObject::class f=class; ber::ber::BerObject::tag f=tag; ber::ber::BerObject::length f=length; ber::ber::BerObject::is_constructed f=constructed
params: self
ret: r
spec:
    ensures r == self.header.{f},
=== fn ber::ber::BerObject::is_primitive
params: self
ret: r
spec:
    ensures r == !self.header.constructed,
=== fn ber::ber::BerObject::is_universal c=Universal; ber::ber::BerObject::is_application c=Application; ber::ber::BerObject::is_contextspecific c=ContextSpecific; ber::ber::BerObject::is_private c=Private
params: self
ret: r
spec:
    ensures r == (self.header.class == Class::{c}),
=== fn ber::ber::BerObject::assert_class f=class; ber::ber::BerObject::assert_tag f=tag
params: self x
ret: r
spec:
    ensures r is Ok <==> self.header.{f} == x, r is Err ==> ek(r->Err_0) == EK::Other,
=== fn ber::ber::BerObject::assert_constructed n=true; ber::ber::BerObject::assert_primitive n=false
params: self
ret: r
spec:
    ensures r is Ok <==> self.header.constructed == {n}, r is Err ==> ek(r->Err_0) == EK::Other,
=== fn ber::ber::<BerObject as TryFrom_Any>::try_from
params: any
ret: r
spec:
    ensures try_from_ok(any, r),
=== fn ber::ber::<BitStringObject as AsRef_[u8]>::as_ref
params: self
ret: r
spec:
    ensures r@ == self.data@,
=== fn ber::ber::<BerObjectIntoIterator as Iterator>::next
params: self
ret: r
spec:
    requires old(self).idx < usize::MAX,
    ensures
        final(self).val == old(self).val, final(self).idx == old(self).idx + 1,
        match iter_val(ov(old(self).val), old(self).idx as int) { Some(o) => r is Some && ov(r->Some_0) == o, None => r is None },
entry:
    broadcast use group_dec;
=== fn ber::ber::<BerObject as IntoIterator>::into_iter
params: self
ret: r
spec:
    ensures r.val == self, r.idx == 0,
=== fn ber::ber::<BerObjectRefIterator as Iterator>::next
params: self
ret: r
spec:
    requires old(self).idx < usize::MAX,
    ensures
        final(self).obj == old(self).obj, final(self).idx == old(self).idx + 1,
        match iter_ref(*old(self).obj, old(self).idx as int) { Some(o) => r is Some && *r->Some_0 == o, None => r is None },
=== fn ber::ber::BerObject::ref_iter
params: self
ret: r
spec:
    ensures r.obj == self, r.idx == 0,
=== fn ber::ber::<BerObject as Index_usize>::index
params: self idx
ret: r
spec:
    requires iter_ref(*self, idx as int) is Some,
    ensures *r == iter_ref(*self, idx as int)->Some_0,
=== fn ber::ber::<BerObject as TryFrom_ref_Any>::try_from
params: any
ret: r
spec:
    ensures try_from_ok(*any, r),
=== fn ber::ber::BerObject::as_bigint
params: self
ret: r
spec:
    ensures match self.content { BerObjectContent::Integer(s) => r is Ok && r->Ok_0@ == be_signed(s@), _ => r is Err },
=== fn ber::ber::BerObject::as_biguint
params: self
ret: r
spec:
    ensures match self.content { BerObjectContent::Integer(s) => if neg(s@) { r is Err && ek(r->Err_0) == EK::Negative } else { r is Ok && r->Ok_0@ == be_signed(s@) }, _ => r is Err },
=== fn ber::ber::BitStringObject::as_bitslice
params: self
ret: r
spec:
    ensures
        self.data@.len() < 0x0400_0000_0000_0000 ==> r is Some, r is Some ==> r->Some_0@ == self.data@,
=== fn ber::ber::BerObjectContent::as_bitslice
params: self
ret: r
spec:
    ensures
        match slice_of(cv(*self)) { Some(s) => (s.len() < 0x0400_0000_0000_0000 ==> r is Ok) && (r is Ok ==> r->Ok_0@ == s), None => r is Err },
closure 0: |s: &'a [u8]| -> (r: Result<&'a BitSlice<u8, Msb0>, BerError>)
    ensures (s@.len() < 0x0400_0000_0000_0000 ==> r is Ok) && (r is Ok ==> r->Ok_0@ == s@),
closure 1: |e: crate::bitvec::slice::BitSpanError| -> (r: BerError)
=== fn ber::ber::BerObject::as_bitslice
params: self
ret: r
spec:
    ensures
        match slice_of(cv(self.content)) { Some(s) => (s.len() < 0x0400_0000_0000_0000 ==> r is Ok) && (r is Ok ==> r->Ok_0@ == s), None => r is Err },
