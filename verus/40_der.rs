
// ======================================================================== DER
pub mod vder {
use vstd::prelude::*;
use crate::vspec::*;
use crate::asn1_rs::*;
use vstd::arithmetic::power2::*;
verus! {
pub open spec fn der_str_tag(t: Tag) -> bool { is_str_tag(t) || t == Tag::BmpString || t == Tag::UniversalString }
/// the DER restrictions on contents octets c of universal type `tag` (BIT STRING apart)
pub open spec fn der_ok(tag: Tag, constructed: bool, c: Seq<u8>) -> bool {
    if tag == Tag::Boolean { c.len() == 1 && (c[0] == 0 || c[0] == 0xff) }
    else if tag == Tag::Integer { c.len() > 0 && !(c.len() >= 2 && c[0] == 0 && c[1] < 0x80) }
    else if der_str_tag(tag) { !constructed }
    else if tag == Tag::UtcTime || tag == Tag::GeneralizedTime { c.len() > 0 && c.last() == 0x5a }
    else { true }
}
/// the k least significant bits of b are zero
pub open spec fn low_zero(b: u8, k: int) -> bool { b as int % pow2(k as nat) as int == 0 }
pub open spec fn der_bits(s: Seq<u8>, l: int, constructed: bool) -> PR<CV> {
    if constructed { PR::Err(EK::Other) }
    else if l == 0 { if s.len() == 0 { PR::Inc } else { PR::Err(EK::Other) } }
    else if s[0] > 7 || (l > 1 && !low_zero(s[l - 1], s[0] as int)) { PR::Err(EK::Other) }
    else { PR::Ok(l, CV::BitString(s[0], s.subrange(1, l))) }
}
pub open spec fn der_as(s: Seq<u8>, tag: Tag, len: Length, constructed: bool, d: nat) -> PR<CV> {
    match len {
        Length::Indefinite => PR::Err(EK::Other),
        Length::Definite(l) =>
            if s.len() < l { PR::Inc }
            else if tag == Tag::BitString {
                if constructed || l > max_object_size() { PR::Err(EK::Other) } else if d == 0 { PR::Err(EK::MaxDepth) } else { der_bits(s, l as int, constructed) }
            }
            else if !der_ok(tag, constructed, s.take(l as int)) { PR::Err(EK::Other) }
            else { read_as(s, tag, len, constructed, d) },
    }
}
pub open spec fn der_body(s: Seq<u8>, h: HV, d: nat) -> PR<OV> {
    if h.class != Class::Universal {
        match content(s, h, d, true) { PR::Ok(m, c) => PR::Ok(m, OV { h, c: CV::Unknown(h, c) }), e => perr(e) }
    } else {
        match der_as(s, h.tag, h.length, h.constructed, d) { PR::Ok(m, c) => PR::Ok(m, OV { h, c }), e => perr(e) }
    }
}
pub open spec fn pder(s: Seq<u8>, d: nat) -> PR<OV> {
    match hdr(s, true) {
        PR::Ok(n, h) => if h.length is Definite && h.length->Definite_0 > max_object_size() { PR::Err(EK::Other) } else { padd(n, der_body(s.skip(n), h, d)) },
        e => perr(e),
    }
}
pub open spec fn pder_tag(s: Seq<u8>, t: Tag) -> PR<OV> {
    match hdr(s, true) {
        PR::Ok(n, h) => if h.tag != t { PR::Err(EK::Other) } else {
            match der_as(s.skip(n), h.tag, h.length, h.constructed, 50) { PR::Ok(m, c) => PR::Ok(n + m, OV { h, c }), e => perr(e) }
        },
        e => perr(e),
    }
}
pub proof fn lemma_low_zero_step(b: u8, k: int)
    requires 0 <= k <= 7
    ensures
        k > 0 ==> (low_zero(b, k) <==> b % 2 == 0 && low_zero(b / 2, k - 1)),
        low_zero(b, 0),
{
    lemma2_to64();
    if k > 0 {
        let x = b as int;
        lemma_pow2_unfold(k as nat);
        let p = pow2((k - 1) as nat) as int;
        lemma_pow2_pos((k - 1) as nat);
        assert(x % (2 * p) == 0 <==> x % 2 == 0 && (x / 2) % p == 0) by {
            vstd::arithmetic::div_mod::lemma_mod_breakdown(x, 2, p);
            let (a, c) = ((x / 2) % p, x % 2);
            assert(2 * a + c == x % (2 * p));
            assert(a >= 0);
        }
    }
}
pub broadcast proof fn lemma_low_zero0(b: u8, k: int)
    requires k == 0
    ensures #[trigger] low_zero(b, k)
{ lemma2_to64(); }
pub broadcast proof fn lemma_skip_take(s: Seq<u8>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len()
    ensures #[trigger] s.skip(a).take(b) == s.subrange(a, a + b)
{ assert(s.skip(a).take(b) =~= s.subrange(a, a + b)); }
pub broadcast proof fn lemma_and1(b: u8)
    ensures ((#[trigger] (b & 1)) != 0) == (b % 2 == 1)
{ assert((b & 1 != 0) == (b % 2 == 1)) by (bit_vector); }
pub broadcast proof fn lemma_shr1(b: u8)
    ensures #[trigger] (b >> 1u8) == b / 2
{ assert(b >> 1u8 == b / 2) by (bit_vector); }
/// reading contents never gives UnknownTag
pub broadcast proof fn lemma_no_unknown(h: HV, data: Seq<u8>, d: nat)
    ensures #[trigger] dec(h, data, d) != DR::<CV>::Err(EK::UnknownTag)
    decreases d, 0nat, 0nat
{
    if d > 0 && h.class == Class::Universal && h.constructed && (h.tag == Tag::Sequence || h.tag == Tag::Set) { lemma_no_unknown_list(data, (d - 1) as nat); }
}
pub proof fn lemma_no_unknown_list(s: Seq<u8>, d: nat)
    ensures dec_list(s, d) != DR::<Seq<OV>>::Err(EK::UnknownTag)
    decreases d, s.len(), 1nat
{
    lemma_any_nu(s);
    if s.len() > 0 {
        if let PR::Ok(n, (h, c)) = anyp(s) { lemma_no_unknown(h, c, d); if 0 < n <= s.len() { lemma_no_unknown_list(s.skip(n), d); } }
    }
}
pub proof fn lemma_any_nu(s: Seq<u8>) ensures anyp(s) != PR::<(HV, Seq<u8>)>::Err(EK::UnknownTag), anyp(s) != PR::<(HV, Seq<u8>)>::Fail(EK::UnknownTag)
{ lemma_hdr(s, false); if let PR::Ok(n, h) = hdr(s, false) { lemma_skip_nu(s.skip(n), h, 50, false); lemma_skip(s.skip(n), h, 50, false); } }
pub broadcast proof fn lemma_skip_nu(s: Seq<u8>, h: HV, d: nat, strict: bool)
    ensures #[trigger] skip(s, h, d, strict) != PR::<bool>::Err(EK::UnknownTag)
    decreases d, s.len(), 0nat
{ if d > 0 && h.length == Length::Indefinite && h.constructed { lemma_skip_list_nu(s, (d - 1) as nat, strict); } }
pub proof fn lemma_skip_list_nu(s: Seq<u8>, d: nat, strict: bool)
    ensures skip_list(s, d, strict) != PR::<bool>::Err(EK::UnknownTag)
    decreases d, s.len(), 1nat
{
    lemma_hdr(s, false);
    if let PR::Ok(n, h) = hdr(s, false) {
        lemma_skip_nu(s.skip(n), h, d, strict);
        if let PR::Ok(m, eoc) = skip(s.skip(n), h, d, strict) { if !eoc && m >= 0 && n + m <= s.len() { lemma_skip_list_nu(s.skip(n + m), d, strict); } }
    }
}
pub broadcast group group_der { lemma_low_zero0, lemma_skip_take, lemma_and1, lemma_shr1, lemma_no_unknown, lemma_skip_nu }

// ---- integer parsers
pub open spec fn int_contents(s: Seq<u8>, der: bool) -> PR<(HV, Seq<u8>)> {
    if der {
        match hdr(s, true) {
            PR::Ok(n, h) => match h.length {
                Length::Definite(l) => if s.len() - n < l { PR::Inc } else { PR::Ok(n + l, (h, s.subrange(n, n + l))) },
                Length::Indefinite => PR::Err(EK::Other),
            },
            e => perr(e),
        }
    } else { anyp(s) }
}
pub open spec fn der_int_ok(c: Seq<u8>) -> bool { c.len() > 0 && !(c.len() >= 2 && ((c[0] == 0 && c[1] < 0x80) || (c[0] == 0xff && c[1] >= 0x80))) }
/// the contents octets of the INTEGER an integer parser reads
pub open spec fn pint(s: Seq<u8>, der: bool) -> PR<Seq<u8>> {
    match int_contents(s, der) {
        PR::Ok(n, (h, c)) => if h.tag != Tag::Integer || h.constructed || (der && !der_int_ok(c)) { PR::Err(EK::Other) } else { PR::Ok(n, c) },
        e => perr(e),
    }
}
pub open spec fn pint_i32(s: Seq<u8>, der: bool) -> PR<i32> { match pint(s, der) { PR::Ok(n, c) => match i32_val(c) { DR::Ok(v) => PR::Ok(n, v), DR::Err(e) => PR::Err(e) }, e => perr(e) } }
pub open spec fn pint_i64(s: Seq<u8>, der: bool) -> PR<i64> { match pint(s, der) { PR::Ok(n, c) => match i64_val(c) { DR::Ok(v) => PR::Ok(n, v), DR::Err(e) => PR::Err(e) }, e => perr(e) } }
pub open spec fn pint_u32(s: Seq<u8>, der: bool) -> PR<u32> { match pint(s, der) { PR::Ok(n, c) => match u32_val(c) { DR::Ok(v) => PR::Ok(n, v), DR::Err(e) => PR::Err(e) }, e => perr(e) } }
pub open spec fn pint_u64(s: Seq<u8>, der: bool) -> PR<u64> { match pint(s, der) { PR::Ok(n, c) => match u64_val(c) { DR::Ok(v) => PR::Ok(n, v), DR::Err(e) => PR::Err(e) }, e => perr(e) } }

// assumed: asn1_rs integer parsers
impl<'a> FromBer<'a> for i32 {
    open spec fn ber_rel(i: Seq<u8>, p: PR<Self>) -> bool { p == pint_i32(i, false) }
    #[verifier::external_body]
    fn from_ber(bytes: &'a [u8]) -> (r: ParseResult<'a, Self>) { unimplemented!() /*dep: crate::depsup::i32_from_ber(bytes) */ }
}
impl<'a> FromDer<'a> for i32 {
    open spec fn der_rel(i: Seq<u8>, p: PR<Self>) -> bool { p == pint_i32(i, true) }
    #[verifier::external_body]
    fn from_der(bytes: &'a [u8]) -> (r: ParseResult<'a, Self>) { unimplemented!() /*dep: crate::depsup::i32_from_der(bytes) */ }
}
impl<'a> FromBer<'a> for i64 {
    open spec fn ber_rel(i: Seq<u8>, p: PR<Self>) -> bool { p == pint_i64(i, false) }
    #[verifier::external_body]
    fn from_ber(bytes: &'a [u8]) -> (r: ParseResult<'a, Self>) { unimplemented!() /*dep: crate::depsup::i64_from_ber(bytes) */ }
}
impl<'a> FromDer<'a> for i64 {
    open spec fn der_rel(i: Seq<u8>, p: PR<Self>) -> bool { p == pint_i64(i, true) }
    #[verifier::external_body]
    fn from_der(bytes: &'a [u8]) -> (r: ParseResult<'a, Self>) { unimplemented!() /*dep: crate::depsup::i64_from_der(bytes) */ }
}
impl<'a> FromBer<'a> for u32 {
    open spec fn ber_rel(i: Seq<u8>, p: PR<Self>) -> bool { p == pint_u32(i, false) }
    #[verifier::external_body]
    fn from_ber(bytes: &'a [u8]) -> (r: ParseResult<'a, Self>) { unimplemented!() /*dep: crate::depsup::u32_from_ber(bytes) */ }
}
impl<'a> FromDer<'a> for u32 {
    open spec fn der_rel(i: Seq<u8>, p: PR<Self>) -> bool { p == pint_u32(i, true) }
    #[verifier::external_body]
    fn from_der(bytes: &'a [u8]) -> (r: ParseResult<'a, Self>) { unimplemented!() /*dep: crate::depsup::u32_from_der(bytes) */ }
}
impl<'a> FromBer<'a> for u64 {
    open spec fn ber_rel(i: Seq<u8>, p: PR<Self>) -> bool { p == pint_u64(i, false) }
    #[verifier::external_body]
    fn from_ber(bytes: &'a [u8]) -> (r: ParseResult<'a, Self>) { unimplemented!() /*dep: crate::depsup::u64_from_ber(bytes) */ }
}
impl<'a> FromDer<'a> for u64 {
    open spec fn der_rel(i: Seq<u8>, p: PR<Self>) -> bool { p == pint_u64(i, true) }
    #[verifier::external_body]
    fn from_der(bytes: &'a [u8]) -> (r: ParseResult<'a, Self>) { unimplemented!() /*dep: crate::depsup::u64_from_der(bytes) */ }
}
} // verus!
}
