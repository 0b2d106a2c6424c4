
// ======================================================================== objects
pub mod vobj {
use vstd::prelude::*;
use crate::vspec::*;
use crate::asn1_rs::*;
use crate::ber::ber::{BerObject, BerObjectContent, BitStringObject};
verus! {
pub open spec fn content_tag(c: BerObjectContent) -> Tag decreases c {
    match c {
        BerObjectContent::EndOfContent => Tag::EndOfContent,
        BerObjectContent::Boolean(_) => Tag::Boolean,
        BerObjectContent::Integer(_) => Tag::Integer,
        BerObjectContent::BitString(_, _) => Tag::BitString,
        BerObjectContent::OctetString(_) => Tag::OctetString,
        BerObjectContent::Null => Tag::Null,
        BerObjectContent::Enum(_) => Tag::Enumerated,
        BerObjectContent::OID(_) => Tag::Oid,
        BerObjectContent::RelativeOID(_) => Tag::RelativeOid,
        BerObjectContent::NumericString(_) => Tag::NumericString,
        BerObjectContent::VisibleString(_) => Tag::VisibleString,
        BerObjectContent::PrintableString(_) => Tag::PrintableString,
        BerObjectContent::IA5String(_) => Tag::Ia5String,
        BerObjectContent::UTF8String(_) => Tag::Utf8String,
        BerObjectContent::T61String(_) => Tag::TeletexString,
        BerObjectContent::VideotexString(_) => Tag::VideotexString,
        BerObjectContent::ObjectDescriptor(_) => Tag::ObjectDescriptor,
        BerObjectContent::GraphicString(_) => Tag::GraphicString,
        BerObjectContent::GeneralString(_) => Tag::GeneralString,
        BerObjectContent::BmpString(_) => Tag::BmpString,
        BerObjectContent::UniversalString(_) => Tag::UniversalString,
        BerObjectContent::Sequence(_) => Tag::Sequence,
        BerObjectContent::Set(_) => Tag::Set,
        BerObjectContent::UTCTime(_) => Tag::UtcTime,
        BerObjectContent::GeneralizedTime(_) => Tag::GeneralizedTime,
        BerObjectContent::Optional(None) => Tag(0),
        BerObjectContent::Optional(Some(o)) => content_tag(o.content),
        BerObjectContent::Tagged(_, t, _) => t,
        BerObjectContent::Unknown(a) => a.header.tag,
    }
}
/// header of an object built from content
pub open spec fn uni_header<'a>(t: Tag) -> Header<'a> {
    Header { class: Class::Universal, constructed: t == Tag::Sequence || t == Tag::Set, tag: t, length: Length::Definite(0), raw_tag: None }
}
pub open spec fn slice_of(c: CV) -> Option<Seq<u8>> {
    match c {
        CV::Str(_, s) => Some(s), CV::Integer(s) => Some(s), CV::BitString(_, s) => Some(s), CV::OctetString(s) => Some(s),
        CV::BmpString(s) => Some(s), CV::UniversalString(s) => Some(s), CV::Unknown(_, s) => Some(s),
        _ => None,
    }
}
/// conversion of an undecoded element: the header is kept, the contents are decoded by its tag number
pub open spec fn try_from_ok(a: Any, r: core::result::Result<BerObject, Error>) -> bool {
    match read_as(a.data@, a.header.tag, a.header.length, a.header.constructed, 50) {
        PR::Ok(_, v) => r is Ok && r->Ok_0.header == a.header && cv(r->Ok_0.content) == v,
        PR::Inc => r is Err && ek(r->Err_0) == EK::Incomplete,
        PR::Err(e) => r is Err && ek(r->Err_0) == e,
        PR::Fail(e) => r is Err && ek(r->Err_0) == e,
    }
}
// ---- iteration
pub open spec fn iter_ref<'a>(o: BerObject<'a>, k: int) -> Option<BerObject<'a>> {
    match o.content {
        BerObjectContent::Sequence(v) => if k < v@.len() { Some(v@[k]) } else { None },
        BerObjectContent::Set(v) => if k < v@.len() { Some(v@[k]) } else { None },
        _ => None,
    }
}
pub open spec fn iter_val(o: OV, k: int) -> Option<OV> {
    match o.c {
        CV::Sequence(l) => if k < l.len() { Some(l[k]) } else { None },
        CV::Set(l) => if k < l.len() { Some(l[k]) } else { None },
        _ => if k == 0 { Some(o) } else { None },
    }
}
pub assume_specification<T: Clone>[<T as alloc::borrow::ToOwned>::to_owned](x: &T) -> (r: T)
    ensures call_ensures(T::clone, (x,), r);
pub assume_specification<'b, T: Clone, E>[core::result::Result::<&'b T, E>::cloned](x: core::result::Result<&'b T, E>) -> (r: core::result::Result<T, E>)
    ensures match x { Ok(v) => r is Ok && call_ensures(T::clone, (v,), r->Ok_0), Err(e) => r is Err && r->Err_0 == e };
pub assume_specification<T>[<T as core::convert::From<T>>::from](x: T) -> (r: T)
    ensures r == x;
// assumed: the derived Clone gives an equal object
impl<'a> Clone for BerObject<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'a> Clone for BitStringObject<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
} // verus!
}

// ======================================================================== num-bigint, bitvec (assumed)
pub mod num_bigint {
use vstd::prelude::*;
use crate::vspec::*;
verus! {
#[verifier::external_body]
pub struct BigInt;
#[verifier::external_body]
pub struct BigUint;
impl View for BigInt { type V = int; uninterp spec fn view(&self) -> int; }
impl View for BigUint { type V = nat; uninterp spec fn view(&self) -> nat; }
// assumed: num-bigint reads big-endian two's complement / unsigned bytes; no bytes is zero
impl BigInt {
    #[verifier::external_body]
    pub fn from_signed_bytes_be(s: &[u8]) -> (r: BigInt) ensures r@ == be_signed(s@) { unimplemented!() }
}
impl BigUint {
    #[verifier::external_body]
    pub fn from_bytes_be(s: &[u8]) -> (r: BigUint) ensures r@ == be(s@) { unimplemented!() }
    // assumed: minimal big-endian bytes, one zero byte for zero (an allocation is below 2^60 bytes)
    #[verifier::external_body]
    pub fn to_bytes_be(&self) -> (r: alloc::vec::Vec<u8>) ensures be(r@) == self@, 0 < r@.len() < 0x1000_0000_0000_0000, r@[0] != 0 || r@ == seq![0u8] { unimplemented!() }
}
// assumed: comparison of big integers is that of their values
impl core::cmp::PartialEq for BigUint { #[verifier::external_body] fn eq(&self, o: &BigUint) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for BigUint { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &BigUint) -> bool { self@ == o@ } }
impl core::cmp::PartialOrd for BigUint { #[verifier::external_body] fn partial_cmp(&self, o: &BigUint) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for BigUint {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &BigUint) -> Option<core::cmp::Ordering> {
        Some(if self@ < o@ { core::cmp::Ordering::Less } else if self@ > o@ { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal })
    }
}
impl crate::shim::Into<BigUint> for u8 { open spec fn iv(self, r: BigUint) -> bool { r@ == self } #[verifier::external_body] fn vp_into(self) -> (r: BigUint) { unimplemented!() } }
} // verus!
}
pub mod bitvec {
pub mod order {
use vstd::prelude::*;
verus! { pub struct Msb0; }
}
pub mod slice {
use vstd::prelude::*;
verus! {
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(O)]
pub struct BitSlice<T, O> { p: core::marker::PhantomData<(T, O)> }
pub struct BitSpanError;
/// the elements a bit slice covers; a bit slice over a whole slice covers all their bits
impl<T, O> View for BitSlice<T, O> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T, O> BitSlice<T, O> {
    // assumed: bitvec covers a slice of up to 2^58 - 1 elements entirely, without copying
    #[verifier::external_body]
    pub fn try_from_slice<'s>(s: &'s [T]) -> (r: Result<&'s BitSlice<T, O>, BitSpanError>)
        ensures s@.len() < 0x0400_0000_0000_0000 ==> r is Ok, r is Ok ==> r->Ok_0@ == s@,
    { unimplemented!() }
}
} // verus!
}
}
