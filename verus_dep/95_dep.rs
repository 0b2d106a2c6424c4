
// ======================================================================== support for the functions extracted from asn1-rs
pub mod depsup {
use vstd::prelude::*;
use crate::vspec::*;
use crate::asn1_rs::*;
use crate::nom;
use crate::shim::VpIter;
verus! {
pub struct BerClassFromIntError(pub ());
/// core::convert::TryFrom
pub trait TryFrom<T>: Sized {
    type Error;
    spec fn tp(x: T) -> bool;
    spec fn tf(x: T, r: core::result::Result<Self, Self::Error>) -> bool;
    fn vp_try_from(x: T) -> (r: core::result::Result<Self, Self::Error>) requires Self::tp(x) ensures Self::tf(x, r);
}
impl TryFrom<u8> for Class {
    type Error = BerClassFromIntError;
    open spec fn tp(x: u8) -> bool { true }
    open spec fn tf(x: u8, r: core::result::Result<Self, BerClassFromIntError>) -> bool {
        r == (if x == 0 { Ok(Class::Universal) } else if x == 1 { Ok(Class::Application) } else if x == 2 { Ok(Class::ContextSpecific) } else if x == 3 { Ok(Class::Private) }
            else { Err::<Class, BerClassFromIntError>(BerClassFromIntError(())) })
    }
    fn vp_try_from(x: u8) -> (r: core::result::Result<Self, BerClassFromIntError>) { Class::vp_TryFrom_u8_try_from(x) }
}
// core: usize is 64 bits wide
impl TryFrom<u64> for usize {
    type Error = ();
    open spec fn tp(x: u64) -> bool { true }
    open spec fn tf(x: u64, r: core::result::Result<Self, ()>) -> bool { r == Ok::<usize, ()>(x as usize) }
    fn vp_try_from(x: u64) -> (r: core::result::Result<Self, ()>) { Ok(x as usize) }
}
pub trait GetObjectContent {
    spec fn goc(i: Seq<u8>, h: HV, d: nat) -> PR<Seq<u8>>;
    fn get_object_content<'a>(i: &'a [u8], hdr: &Header, max_depth: usize) -> (r: ParseResult<'a, &'a [u8]>)
        ensures prv(i@, r, Self::goc(i@, hv(*hdr), max_depth as nat), |x: &[u8]| x@);
}
impl GetObjectContent for BerParser {
    open spec fn goc(i: Seq<u8>, h: HV, d: nat) -> PR<Seq<u8>> { content(i, h, d, false) }
    fn get_object_content<'a>(i: &'a [u8], hdr: &Header, max_depth: usize) -> (r: ParseResult<'a, &'a [u8]>) { BerParser::vp_GetObjectContent_get_object_content(i, hdr, max_depth) }
}
pub open spec fn der_content(i: Seq<u8>, h: HV) -> PR<Seq<u8>> {
    match h.length {
        Length::Definite(l) => if i.len() < l { PR::Inc } else { PR::Ok(l as int, i.take(l as int)) },
        Length::Indefinite => PR::Err(EK::Other),
    }
}
impl GetObjectContent for DerParser {
    open spec fn goc(i: Seq<u8>, h: HV, d: nat) -> PR<Seq<u8>> { der_content(i, h) }
    fn get_object_content<'a>(i: &'a [u8], hdr: &Header, max_depth: usize) -> (r: ParseResult<'a, &'a [u8]>) { DerParser::vp_GetObjectContent_get_object_content(i, hdr, max_depth) }
}
/// the identifier octets: class bits, constructed bit, tag number
pub open spec fn ident(i: Seq<u8>) -> PR<(u8, u8, u32)> {
    match ident_tag(i) { PR::Ok(n, t) => PR::Ok(n, ((i[0] / 64) as u8, ((i[0] / 32) % 2) as u8, t)), e => perr(e) }
}
pub open spec fn lenbyte(i: Seq<u8>) -> PR<(u8, u8)> {
    if i.len() == 0 { PR::Inc } else { PR::Ok(1, ((i[0] / 128) as u8, (i[0] % 128) as u8)) }
}
pub broadcast proof fn lemma_head_bits(b: u8)
    ensures #![trigger b >> 6u8] #![trigger b & 0x20u8] #![trigger b & 0x1fu8] #![trigger b >> 7u8] #![trigger b & 0x7fu8] #![trigger b & 0x80u8]
        b >> 6u8 == b / 64, ((b & 0x20u8) != 0) == ((b / 32) % 2 == 1), b & 0x1fu8 == b % 32, b >> 7u8 == b / 128, b & 0x7fu8 == b % 128, ((b & 0x80u8) == 0) == (b < 0x80),
{
    assert(b >> 6u8 == b / 64) by (bit_vector);
    assert(((b & 0x20u8) != 0) == ((b / 32) % 2 == 1)) by (bit_vector);
    assert(b & 0x1fu8 == b % 32) by (bit_vector);
    assert(b >> 7u8 == b / 128) by (bit_vector);
    assert(b & 0x7fu8 == b % 128) by (bit_vector);
    assert(((b & 0x80u8) == 0) == (b < 0x80)) by (bit_vector);
}
pub proof fn lemma_u64_octet(u: u64, c: u8)
    ensures
        (u & 0xff00_0000_0000_0000u64 != 0) == (u >= 0x100_0000_0000_0000u64),
        u < 0x100_0000_0000_0000u64 ==> (u << 8u64) | (c as u64) == u * 256 + c, u < 0x100_0000_0000_0000u64 ==> u << 8u64 == u * 256,
{
    let d = c as u64;
    assert((u & 0xff00_0000_0000_0000u64 != 0) == (u >= 0x100_0000_0000_0000u64)) by (bit_vector);
    assert(d < 256 && u < 0x100_0000_0000_0000u64 ==> (u << 8u64) | d == u * 256 + d) by (bit_vector);
    assert(u < 0x100_0000_0000_0000u64 ==> u << 8u64 == u * 256) by (bit_vector);
}
/// a prefix denotes at most the value of the whole
pub proof fn lemma_be_prefix(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len()
    ensures be(s) >= be(s.take(k))
{
    assert(s =~= s.take(k) + s.skip(k));
    lemma_be_concat(s.take(k), s.skip(k));
    lemma_be_bound(s.take(k));
    lemma_be_bound(s.skip(k));
    lemma_pow256_pos((s.len() - k) as nat);
    let (x, p) = (be(s.take(k)), pow256((s.len() - k) as nat));
    assert(x * p >= x) by (nonlinear_arith) requires x >= 0, p >= 1;
}
pub fn header_from_ber<'a>(bytes: &'a [u8]) -> (r: ParseResult<'a, Header<'a>>)
    ensures exists|p: PR<Header<'a>>| #[trigger] Header::ber_rel(bytes@, p) && prr(bytes@, r, p)
{
    let r = Header::vp_FromBer_from_ber(bytes);
    proof {
        let p: PR<Header<'a>> = match hdr(bytes@, false) { PR::Ok(n, _) => PR::Ok(n, r->Ok_0.1), e => perr(e) };
        assert(pmap(p, |h: Header<'a>| hv(h)) == hdr(bytes@, false));
        assert(Header::ber_rel(bytes@, p));
    }
    r
}
pub fn header_from_der<'a>(bytes: &'a [u8]) -> (r: ParseResult<'a, Header<'a>>)
    ensures exists|p: PR<Header<'a>>| #[trigger] Header::der_rel(bytes@, p) && prr(bytes@, r, p)
{
    let r = Header::vp_FromDer_from_der(bytes);
    proof {
        let p: PR<Header<'a>> = match hdr(bytes@, true) { PR::Ok(n, _) => PR::Ok(n, r->Ok_0.1), e => perr(e) };
        assert(pmap(p, |h: Header<'a>| hv(h)) == hdr(bytes@, true));
        assert(Header::der_rel(bytes@, p));
    }
    r
}
pub fn any_from_ber<'a>(bytes: &'a [u8]) -> (r: ParseResult<'a, Any<'a>>)
    ensures exists|p: PR<Any<'a>>| #[trigger] Any::ber_rel(bytes@, p) && prr(bytes@, r, p)
{
    let r = Any::vp_FromBer_from_ber(bytes);
    proof {
        let p: PR<Any<'a>> = match anyp(bytes@) { PR::Ok(n, _) => PR::Ok(n, r->Ok_0.1), e => perr(e) };
        assert(pmap(p, |h: Any<'a>| anyv(h)) == anyp(bytes@));
        assert(Any::ber_rel(bytes@, p));
    }
    r
}

// assumed: core::iter::Iterator::{position, all}, <[T]>::windows, u8::is_ascii
impl<T> VpIter<T> {
    #[verifier::external_body]
    pub fn position<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|k: int| 0 <= k < self@.len() ==> f.requires((#[trigger] self@[k],)),
        ensures match r {
            Some(n) => n < self@.len() && f.ensures((self@[n as int],), true) && forall|k: int| 0 <= k < n ==> f.ensures((#[trigger] self@[k],), false),
            None => forall|k: int| 0 <= k < self@.len() ==> f.ensures((#[trigger] self@[k],), false),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|k: int| 0 <= k < self@.len() ==> f.requires((#[trigger] self@[k],)),
        ensures
            r ==> forall|k: int| 0 <= k < self@.len() ==> f.ensures((#[trigger] self@[k],), true),
            !r ==> exists|k: int| 0 <= k < self@.len() && f.ensures((#[trigger] self@[k],), false),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_is_ascii_digit(b: u8) -> (r: bool) ensures r == dig(b) { b.is_ascii_digit() }
#[verifier::external_body]
pub fn vp_to_string(s: &str) -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn vp_is_ascii(b: &u8) -> (r: bool) ensures r == (*b < 0x80) { b.is_ascii() }
pub trait VpWindows<T> { fn vp_windows<'a>(&'a self, n: usize) -> (r: VpIter<&'a [T]>) requires n > 0; }
impl<T> VpWindows<T> for [T] {
    #[verifier::external_body]
    fn vp_windows<'a>(&'a self, n: usize) -> (r: VpIter<&'a [T]>)
        ensures r@.len() == (if self@.len() >= n { self@.len() - n + 1 } else { 0 }), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k])@ == self@.subrange(k, k + n),
    { unimplemented!() }
}
/// `as` between integers of one width wraps
pub fn vp_wrap_i32(x: u32) -> (r: i32)
    ensures r == (if x <= 0x7fff_ffffu32 { x as int } else { x - 0x1_0000_0000 })
{
    proof {
        assert(x <= 0x7fff_ffffu32 ==> (x as i32) as i64 == x as i64) by (bit_vector);
        assert(x > 0x7fff_ffffu32 ==> (x as i32) as i64 == sub(x as i64, 0x1_0000_0000i64)) by (bit_vector);
    }
    #[verifier::truncate] (x as i32)
}
pub fn vp_wrap_i64(x: u64) -> (r: i64)
    ensures r == (if x <= 0x7fff_ffff_ffff_ffffu64 { x as int } else { x - 0x1_0000_0000_0000_0000 })
{
    proof {
        assert(x <= 0x7fff_ffff_ffff_ffffu64 ==> (x as i64) as i128 == x as i128) by (bit_vector);
        assert(x > 0x7fff_ffff_ffff_ffffu64 ==> (x as i64) as i128 == sub(x as i128, 0x1_0000_0000_0000_0000i128)) by (bit_vector);
    }
    #[verifier::truncate] (x as i64)
}
/// stripping leading zeros by position
pub proof fn lemma_rz_first_nonzero(s: Seq<u8>, k: int)
    requires 0 <= k < s.len(), forall|j: int| 0 <= j < k ==> s[j] == 0, s[k] != 0 || k == s.len() - 1
    ensures rz(s) == s.skip(k)
    decreases k
{
    if k > 0 {
        assert(forall|j: int| 0 <= j < k - 1 ==> s.skip(1)[j] == 0);
        lemma_rz_first_nonzero(s.skip(1), k - 1);
        assert(s.skip(1).skip(k - 1) =~= s.skip(k));
    } else {
        assert(s.skip(0) =~= s);
    }
}
// ---- iterator
pub open spec fn iter_items<'a>(it: SequenceIterator<'a, Any<'a>, BerParser>) -> Seq<Item> { if it.has_error { Seq::empty() } else { any_items(it.data@) } }
pub open spec fn iter_size<'a>(it: SequenceIterator<'a, Any<'a>, BerParser>) -> nat { if it.has_error { 0 } else { it.data@.len() + 1 } }
impl<T> VpIter<T> {
    // assumed: an iterator over the elements of a vector
    #[verifier::external_body]
    pub fn of(v: Vec<T>) -> (r: VpIter<T>) ensures r@ == v@ { unimplemented!() }
}
#[verifier::loop_isolation(false)]
pub fn seq_map<'a, B, F: Fn(Result<Any<'a>>) -> B>(it: SequenceIterator<'a, Any<'a>, BerParser>, f: F) -> (r: VpIter<B>)
    requires !it.has_error, forall|x: Result<Any<'a>>| item_wf(x) ==> #[trigger] f.requires((x,)),
    ensures r@.len() == any_items(it.input()).len(), forall|k: int| 0 <= k < r@.len() ==> mapped(f, #[trigger] r@[k], any_items(it.input())[k]),
{
    let ghost all = any_items(it.data@);
    let mut it = it;
    let mut v: Vec<B> = Vec::new();
    assert(all.skip(0) =~= all);
    loop
        invariant
            v@.len() <= all.len(), iter_items(it) == all.skip(v@.len() as int),
            forall|k: int| 0 <= k < v@.len() ==> mapped(f, #[trigger] v@[k], all[k]),
        decreases iter_size(it)
    {
        match it.vp_Iterator_next() {
            None => { return VpIter::of(v); }
            Some(x) => {
                assert(item_of(x) == all[v@.len() as int]);
                let ghost v0 = v@;
                let y = f(x);
                assert(mapped(f, y, all[v0.len() as int]));
                v.push(y);
                assert(all.skip(v0.len() as int).skip(1) =~= all.skip(v0.len() as int + 1));
            }
        }
    }
}
// ---- conversions of Any
pub struct Boolean { pub value: u8 }
impl Boolean { pub fn bool(&self) -> (r: bool) ensures r == (self.value != 0) { self.dep_bool() } }
/// core::convert::TryInto
pub trait TryInto<U>: Sized {
    type Error;
    spec fn ip(self) -> bool;
    spec fn if_(self, r: core::result::Result<U, Self::Error>) -> bool;
    fn vp_try_into(self) -> (r: core::result::Result<U, Self::Error>) requires self.ip() ensures self.if_(r);
}
impl<T, U: TryFrom<T>> TryInto<U> for T {
    type Error = U::Error;
    open spec fn ip(self) -> bool { U::tp(self) }
    open spec fn if_(self, r: core::result::Result<U, U::Error>) -> bool { U::tf(self, r) }
    fn vp_try_into(self) -> (r: core::result::Result<U, U::Error>) { U::vp_try_from(self) }
}
pub trait CheckDerConstraints {
    spec fn cp(any: Any) -> bool;
    spec fn cf(any: Any) -> bool;
    fn check_constraints(any: &Any) -> (r: Result<()>) requires Self::cp(*any) ensures r is Ok <==> Self::cf(*any), r is Err ==> ek(r->Err_0) == EK::Other;
}
pub trait DerAutoDerive {}
/// what Any::from_ber and parse_der_any establish
pub open spec fn bool_pre(a: Any) -> bool { a.header.length == Length::Definite(1) ==> a.data@.len() >= 1 }
pub open spec fn bool_ok(a: Any) -> bool { a.header.tag == Tag::Boolean && a.header.length == Length::Definite(1) }
pub open spec fn conv_boolean(a: Any, r: Result<Boolean>) -> bool {
    (r is Ok <==> bool_ok(a)) && (r is Ok ==> r->Ok_0.value == a.data@[0]) && (r is Err ==> ek(r->Err_0) == EK::Other)
}
pub open spec fn conv_bool(a: Any, r: Result<bool>) -> bool {
    (r is Ok <==> bool_ok(a)) && (r is Ok ==> r->Ok_0 == (a.data@[0] != 0)) && (r is Err ==> ek(r->Err_0) == EK::Other)
}
pub open spec fn conv_enum(a: Any, r: Result<Enumerated>) -> bool {
    (r is Ok <==> a.header.tag == Tag::Enumerated && !a.header.constructed && be(a.data@) <= u32::MAX)
        && (r is Ok ==> r->Ok_0.0 == be(a.data@)) && (r is Err ==> ek(r->Err_0) == if a.header.tag == Tag::Enumerated && !a.header.constructed { EK::TooLarge } else { EK::Other })
}
pub open spec fn conv_oid(a: Any, r: Result<Oid>) -> bool { r is Ok && r->Ok_0.asn1@ == a.data@ && !r->Ok_0.relative }
pub open spec fn conv_int<T>(a: Any, v: DR<T>) -> DR<T> { if a.header.tag != Tag::Integer || a.header.constructed { DR::Err(EK::Other) } else { v } }
pub open spec fn chk_int_ok(a: Any) -> bool { !a.header.constructed && a.header.length is Definite && der_int_ok(a.data@) }
pub open spec fn chk_int(a: Any, r: Result<()>) -> bool { (r is Ok <==> chk_int_ok(a)) && (r is Err ==> ek(r->Err_0) == EK::Other) }
/// the blanket FromBer: Any::from_ber, then the conversion
pub open spec fn conv_ber<'a, T: TryFrom<Any<'a>, Error = Error>>(i: Seq<u8>, r: nom::IResult<&'a [u8], T, Error>) -> bool {
    match anyp(i) {
        PR::Ok(n, v) => exists|a: Any<'a>, x: Result<T>| any_wf(a) && anyv(a) == v && #[trigger] T::tf(a, x) && conv_out(i, r, n, x),
        PR::Inc => prr(i, r, PR::<T>::Inc), PR::Err(e) => prr(i, r, PR::<T>::Err(e)), PR::Fail(e) => prr(i, r, PR::<T>::Fail(e)),
    }
}
pub open spec fn der_any_rel(i: Seq<u8>, r: nom::IResult<&[u8], Any, Error>) -> bool {
    match r {
        Ok(x) => int_contents(i, true) is Ok && 0 <= int_contents(i, true)->Ok_0 <= i.len() && x.0@ == i.skip(int_contents(i, true)->Ok_0)
            && anyv(x.1) == int_contents(i, true)->Ok_1 && any_wf(x.1),
        Err(nom::Err::Incomplete(_)) => int_contents(i, true) is Inc,
        Err(nom::Err::Error(e)) => int_contents(i, true) == PR::<(HV, Seq<u8>)>::Err(ek(e)),
        Err(nom::Err::Failure(e)) => int_contents(i, true) == PR::<(HV, Seq<u8>)>::Fail(ek(e)),
    }
}
pub open spec fn conv_out<T>(i: Seq<u8>, r: nom::IResult<&[u8], T, Error>, n: int, x: Result<T>) -> bool {
    match x { Ok(t) => prr(i, r, PR::Ok(n, t)), Err(e) => r == Err::<(&[u8], T), nom::Err<Error>>(nom::Err::Error(e)) }
}
pub open spec fn conv_der<'a, T: TryFrom<Any<'a>, Error = Error> + CheckDerConstraints>(i: Seq<u8>, r: nom::IResult<&'a [u8], T, Error>) -> bool {
    match int_contents(i, true) {
        PR::Ok(n, v) => exists|a: Any<'a>| any_wf(a) && anyv(a) == v && #[trigger] T::tp(a)
            && (if T::cf(a) { exists|x: Result<T>| #[trigger] T::tf(a, x) && conv_out(i, r, n, x) } else { prr(i, r, PR::<T>::Err(EK::Other)) }),
        PR::Inc => prr(i, r, PR::<T>::Inc), PR::Err(e) => prr(i, r, PR::<T>::Err(e)), PR::Fail(e) => prr(i, r, PR::<T>::Fail(e)),
    }
}
impl<'a> TryFrom<Any<'a>> for Boolean {
    type Error = Error;
    open spec fn tp(x: Any<'a>) -> bool { bool_pre(x) }
    open spec fn tf(x: Any<'a>, r: Result<Boolean>) -> bool { conv_boolean(x, r) }
    fn vp_try_from(x: Any<'a>) -> (r: Result<Boolean>) { Boolean::vp_TryFrom_Any_try_from(x) }
}
impl<'a, 'b> TryFrom<&'b Any<'a>> for Boolean {
    type Error = Error;
    open spec fn tp(x: &'b Any<'a>) -> bool { bool_pre(*x) }
    open spec fn tf(x: &'b Any<'a>, r: Result<Boolean>) -> bool { conv_boolean(*x, r) }
    fn vp_try_from(x: &'b Any<'a>) -> (r: Result<Boolean>) { Boolean::vp_TryFrom_ref_Any_try_from(x) }
}
impl<'a> TryFrom<Any<'a>> for bool {
    type Error = Error;
    open spec fn tp(x: Any<'a>) -> bool { bool_pre(x) }
    open spec fn tf(x: Any<'a>, r: Result<bool>) -> bool { conv_bool(x, r) }
    fn vp_try_from(x: Any<'a>) -> (r: Result<bool>) { crate::dep::bool_vp_TryFrom_Any_try_from(x) }
}
impl<'a, 'b> TryFrom<&'b Any<'a>> for bool {
    type Error = Error;
    open spec fn tp(x: &'b Any<'a>) -> bool { bool_pre(*x) }
    open spec fn tf(x: &'b Any<'a>, r: Result<bool>) -> bool { conv_bool(*x, r) }
    fn vp_try_from(x: &'b Any<'a>) -> (r: Result<bool>) { crate::dep::bool_vp_TryFrom_ref_Any_try_from(x) }
}
impl<'a> TryFrom<Any<'a>> for Enumerated {
    type Error = Error;
    open spec fn tp(x: Any<'a>) -> bool { true }
    open spec fn tf(x: Any<'a>, r: Result<Enumerated>) -> bool { conv_enum(x, r) }
    fn vp_try_from(x: Any<'a>) -> (r: Result<Enumerated>) { Enumerated::vp_TryFrom_Any_try_from(x) }
}
impl<'a, 'b> TryFrom<&'b Any<'a>> for Enumerated {
    type Error = Error;
    open spec fn tp(x: &'b Any<'a>) -> bool { true }
    open spec fn tf(x: &'b Any<'a>, r: Result<Enumerated>) -> bool { conv_enum(*x, r) }
    fn vp_try_from(x: &'b Any<'a>) -> (r: Result<Enumerated>) { Enumerated::vp_TryFrom_ref_Any_try_from(x) }
}
pub open spec fn conv_utc(a: Any, r: Result<UtcTime>) -> bool {
    if a.header.tag == Tag::UtcTime { utc_rel(a.data@, r) } else { r is Err && ek(r->Err_0) == EK::Other }
}
pub open spec fn utc_rel(s: Seq<u8>, r: Result<UtcTime>) -> bool {
    match utctime_val(s) { Some(t) => r == Ok::<UtcTime, Error>(UtcTime(t)), None => r is Err && ek(r->Err_0) == EK::Other }
}
pub open spec fn conv_gen(a: Any, r: Result<GeneralizedTime>) -> bool {
    if a.header.tag == Tag::GeneralizedTime { gen_rel(a.data@, r) } else { r is Err && ek(r->Err_0) == EK::Other }
}
pub open spec fn gen_rel(s: Seq<u8>, r: Result<GeneralizedTime>) -> bool {
    match gentime_val(s) { Some(t) => r == Ok::<GeneralizedTime, Error>(GeneralizedTime(t)), None => r is Err && ek(r->Err_0) == EK::Other }
}
impl UtcTime { pub fn from_bytes(bytes: &[u8]) -> (r: Result<UtcTime>) ensures utc_rel(bytes@, r) { UtcTime::dep_from_bytes(bytes) } }
impl GeneralizedTime { pub fn from_bytes(bytes: &[u8]) -> (r: Result<GeneralizedTime>) ensures gen_rel(bytes@, r) { GeneralizedTime::dep_from_bytes(bytes) } }
pub open spec fn vis(b: u8) -> bool { 0x20 <= b <= 0x7f }
pub proof fn lemma_tz_vis(s: Seq<u8>)
    requires tz_val(s) is Some
    ensures forall|k: int| 0 <= k < s.len() ==> #[trigger] vis(s[k])
{ }
pub proof fn lemma_utc_vis(s: Seq<u8>)
    requires utctime_val(s) is Some
    ensures forall|k: int| 0 <= k < s.len() ==> #[trigger] vis(s[k])
{
    reveal(utctime_val);
    let q = if s.len() >= 12 { 12int } else { 10 };
    lemma_tz_vis(s.skip(q));
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] vis(s[k]) by { if k < q { assert(dig(s[k])); } else { assert(s.skip(q)[k - q] == s[k]); assert(vis(s.skip(q)[k - q])); } }
}
pub proof fn lemma_frac_vis(s: Seq<u8>, k: int, v: int)
    requires frac_val(s, k, v) is Some, 0 <= k
    ensures
        frac_val(s, k, v)->Some_0.2.len() <= s.len(),
        frac_val(s, k, v)->Some_0.2 =~= s.skip(s.len() - frac_val(s, k, v)->Some_0.2.len()),
        forall|j: int| 0 <= j < s.len() - frac_val(s, k, v)->Some_0.2.len() ==> #[trigger] vis(s[j]),
    decreases s.len()
{
    if s.len() > 0 && k < 4 && dig(s[0]) {
        let t = s.skip(1);
        lemma_frac_vis(t, k + 1, v * 10 + (s[0] - 0x30));
        let n = frac_val(s, k, v)->Some_0.2.len();
        assert forall|j: int| 0 <= j < s.len() - n implies #[trigger] vis(s[j]) by { if j > 0 { assert(t[j - 1] == s[j]); assert(vis(t[j - 1])); } }
    }
}
pub proof fn lemma_gen_vis(s: Seq<u8>)
    requires gentime_val(s) is Some
    ensures forall|k: int| 0 <= k < s.len() ==> #[trigger] vis(s[k])
{
    reveal(gentime_val);
    let q = if s.len() >= 14 { 14int } else { 12 };
    let u = s.skip(q);
    assert forall|k: int| 0 <= k < u.len() implies #[trigger] vis(u[k]) by {
        if u[0] == 0x2e || u[0] == 0x2c {
            let t = u.skip(1);
            lemma_frac_vis(t, 0, 0);
            let w = frac_val(t, 0, 0)->Some_0.2;
            if w.len() > 0 { lemma_tz_vis(w); }
            if k > 0 {
                assert(t[k - 1] == u[k]);
                let j = k - 1 - (t.len() - w.len());
                if j < 0 { assert(vis(t[k - 1])); } else { assert(w[j] == t[k - 1]); assert(vis(w[j])); }
            }
        } else { lemma_tz_vis(u); }
    }
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] vis(s[k]) by { if k < q { assert(dig(s[k])); } else { assert(u[k - q] == s[k]); assert(vis(u[k - q])); } }
}
impl<'a> TryFrom<Any<'a>> for UtcTime {
    type Error = Error;
    open spec fn tp(x: Any<'a>) -> bool { true }
    open spec fn tf(x: Any<'a>, r: Result<UtcTime>) -> bool { conv_utc(x, r) }
    fn vp_try_from(x: Any<'a>) -> (r: Result<UtcTime>) { UtcTime::vp_TryFrom_Any_try_from(x) }
}
impl<'a, 'b> TryFrom<&'b Any<'a>> for UtcTime {
    type Error = Error;
    open spec fn tp(x: &'b Any<'a>) -> bool { true }
    open spec fn tf(x: &'b Any<'a>, r: Result<UtcTime>) -> bool { conv_utc(*x, r) }
    fn vp_try_from(x: &'b Any<'a>) -> (r: Result<UtcTime>) { UtcTime::vp_TryFrom_ref_Any_try_from(x) }
}
impl<'a> TryFrom<Any<'a>> for GeneralizedTime {
    type Error = Error;
    open spec fn tp(x: Any<'a>) -> bool { true }
    open spec fn tf(x: Any<'a>, r: Result<GeneralizedTime>) -> bool { conv_gen(x, r) }
    fn vp_try_from(x: Any<'a>) -> (r: Result<GeneralizedTime>) { GeneralizedTime::vp_TryFrom_Any_try_from(x) }
}
impl<'a, 'b> TryFrom<&'b Any<'a>> for GeneralizedTime {
    type Error = Error;
    open spec fn tp(x: &'b Any<'a>) -> bool { true }
    open spec fn tf(x: &'b Any<'a>, r: Result<GeneralizedTime>) -> bool { conv_gen(*x, r) }
    fn vp_try_from(x: &'b Any<'a>) -> (r: Result<GeneralizedTime>) { GeneralizedTime::vp_TryFrom_ref_Any_try_from(x) }
}
impl<'a> TryFrom<Any<'a>> for Oid<'a> {
    type Error = Error;
    open spec fn tp(x: Any<'a>) -> bool { true }
    open spec fn tf(x: Any<'a>, r: Result<Oid<'a>>) -> bool { conv_oid(x, r) }
    fn vp_try_from(x: Any<'a>) -> (r: Result<Oid<'a>>) { Oid::vp_TryFrom_Any_try_from(x) }
}
impl<'a, 'b> TryFrom<&'b Any<'a>> for Oid<'a> {
    type Error = Error;
    open spec fn tp(x: &'b Any<'a>) -> bool { true }
    open spec fn tf(x: &'b Any<'a>, r: Result<Oid<'a>>) -> bool { conv_oid(*x, r) }
    fn vp_try_from(x: &'b Any<'a>) -> (r: Result<Oid<'a>>) { Oid::vp_TryFrom_ref_Any_try_from(x) }
}
impl<'a> TryFrom<Any<'a>> for i32 {
    type Error = Error;
    open spec fn tp(x: Any<'a>) -> bool { true }
    open spec fn tf(x: Any<'a>, r: Result<i32>) -> bool { drq(r, conv_int(x, i32_val(x.data@))) }
    fn vp_try_from(x: Any<'a>) -> (r: Result<i32>) { crate::dep::i32_vp_TryFrom_Any_try_from(x) }
}
impl<'a, 'b> TryFrom<&'b Any<'a>> for i32 {
    type Error = Error;
    open spec fn tp(x: &'b Any<'a>) -> bool { true }
    open spec fn tf(x: &'b Any<'a>, r: Result<i32>) -> bool { drq(r, conv_int(*x, i32_val(x.data@))) }
    fn vp_try_from(x: &'b Any<'a>) -> (r: Result<i32>) { crate::dep::i32_vp_TryFrom_ref_Any_try_from(x) }
}
impl CheckDerConstraints for i32 {
    open spec fn cp(any: Any) -> bool { true }
    open spec fn cf(any: Any) -> bool { chk_int_ok(any) }
    fn check_constraints(any: &Any) -> (r: Result<()>) { crate::dep::i32_vp_CheckDerConstraints_check_constraints(any) }
}
impl DerAutoDerive for i32 {}
pub fn i32_from_ber<'a>(bytes: &'a [u8]) -> (r: ParseResult<'a, i32>)
    ensures exists|p: PR<i32>| #[trigger] <i32 as FromBer>::ber_rel(bytes@, p) && prr(bytes@, r, p)
{
    let r = crate::dep::T_vp_FromBer_E_from_ber::<i32>(bytes);
    assert(<i32 as FromBer>::ber_rel(bytes@, pint_i32(bytes@, false)));
    r
}
pub fn i32_from_der<'a>(bytes: &'a [u8]) -> (r: ParseResult<'a, i32>)
    ensures exists|p: PR<i32>| #[trigger] <i32 as FromDer>::der_rel(bytes@, p) && prr(bytes@, r, p)
{
    let r = crate::dep::T_vp_FromDer_E_from_der::<i32>(bytes);
    assert(<i32 as FromDer>::der_rel(bytes@, pint_i32(bytes@, true)));
    r
}
impl<'a> TryFrom<Any<'a>> for i64 {
    type Error = Error;
    open spec fn tp(x: Any<'a>) -> bool { true }
    open spec fn tf(x: Any<'a>, r: Result<i64>) -> bool { drq(r, conv_int(x, i64_val(x.data@))) }
    fn vp_try_from(x: Any<'a>) -> (r: Result<i64>) { crate::dep::i64_vp_TryFrom_Any_try_from(x) }
}
impl<'a, 'b> TryFrom<&'b Any<'a>> for i64 {
    type Error = Error;
    open spec fn tp(x: &'b Any<'a>) -> bool { true }
    open spec fn tf(x: &'b Any<'a>, r: Result<i64>) -> bool { drq(r, conv_int(*x, i64_val(x.data@))) }
    fn vp_try_from(x: &'b Any<'a>) -> (r: Result<i64>) { crate::dep::i64_vp_TryFrom_ref_Any_try_from(x) }
}
impl CheckDerConstraints for i64 {
    open spec fn cp(any: Any) -> bool { true }
    open spec fn cf(any: Any) -> bool { chk_int_ok(any) }
    fn check_constraints(any: &Any) -> (r: Result<()>) { crate::dep::i64_vp_CheckDerConstraints_check_constraints(any) }
}
impl DerAutoDerive for i64 {}
pub fn i64_from_ber<'a>(bytes: &'a [u8]) -> (r: ParseResult<'a, i64>)
    ensures exists|p: PR<i64>| #[trigger] <i64 as FromBer>::ber_rel(bytes@, p) && prr(bytes@, r, p)
{
    let r = crate::dep::T_vp_FromBer_E_from_ber::<i64>(bytes);
    assert(<i64 as FromBer>::ber_rel(bytes@, pint_i64(bytes@, false)));
    r
}
pub fn i64_from_der<'a>(bytes: &'a [u8]) -> (r: ParseResult<'a, i64>)
    ensures exists|p: PR<i64>| #[trigger] <i64 as FromDer>::der_rel(bytes@, p) && prr(bytes@, r, p)
{
    let r = crate::dep::T_vp_FromDer_E_from_der::<i64>(bytes);
    assert(<i64 as FromDer>::der_rel(bytes@, pint_i64(bytes@, true)));
    r
}
impl<'a> TryFrom<Any<'a>> for u32 {
    type Error = Error;
    open spec fn tp(x: Any<'a>) -> bool { true }
    open spec fn tf(x: Any<'a>, r: Result<u32>) -> bool { drq(r, conv_int(x, u32_val(x.data@))) }
    fn vp_try_from(x: Any<'a>) -> (r: Result<u32>) { crate::dep::u32_vp_TryFrom_Any_try_from(x) }
}
impl<'a, 'b> TryFrom<&'b Any<'a>> for u32 {
    type Error = Error;
    open spec fn tp(x: &'b Any<'a>) -> bool { true }
    open spec fn tf(x: &'b Any<'a>, r: Result<u32>) -> bool { drq(r, conv_int(*x, u32_val(x.data@))) }
    fn vp_try_from(x: &'b Any<'a>) -> (r: Result<u32>) { crate::dep::u32_vp_TryFrom_ref_Any_try_from(x) }
}
impl CheckDerConstraints for u32 {
    open spec fn cp(any: Any) -> bool { true }
    open spec fn cf(any: Any) -> bool { chk_int_ok(any) }
    fn check_constraints(any: &Any) -> (r: Result<()>) { crate::dep::u32_vp_CheckDerConstraints_check_constraints(any) }
}
impl DerAutoDerive for u32 {}
pub fn u32_from_ber<'a>(bytes: &'a [u8]) -> (r: ParseResult<'a, u32>)
    ensures exists|p: PR<u32>| #[trigger] <u32 as FromBer>::ber_rel(bytes@, p) && prr(bytes@, r, p)
{
    let r = crate::dep::T_vp_FromBer_E_from_ber::<u32>(bytes);
    assert(<u32 as FromBer>::ber_rel(bytes@, pint_u32(bytes@, false)));
    r
}
pub fn u32_from_der<'a>(bytes: &'a [u8]) -> (r: ParseResult<'a, u32>)
    ensures exists|p: PR<u32>| #[trigger] <u32 as FromDer>::der_rel(bytes@, p) && prr(bytes@, r, p)
{
    let r = crate::dep::T_vp_FromDer_E_from_der::<u32>(bytes);
    assert(<u32 as FromDer>::der_rel(bytes@, pint_u32(bytes@, true)));
    r
}
impl<'a> TryFrom<Any<'a>> for u64 {
    type Error = Error;
    open spec fn tp(x: Any<'a>) -> bool { true }
    open spec fn tf(x: Any<'a>, r: Result<u64>) -> bool { drq(r, conv_int(x, u64_val(x.data@))) }
    fn vp_try_from(x: Any<'a>) -> (r: Result<u64>) { crate::dep::u64_vp_TryFrom_Any_try_from(x) }
}
impl<'a, 'b> TryFrom<&'b Any<'a>> for u64 {
    type Error = Error;
    open spec fn tp(x: &'b Any<'a>) -> bool { true }
    open spec fn tf(x: &'b Any<'a>, r: Result<u64>) -> bool { drq(r, conv_int(*x, u64_val(x.data@))) }
    fn vp_try_from(x: &'b Any<'a>) -> (r: Result<u64>) { crate::dep::u64_vp_TryFrom_ref_Any_try_from(x) }
}
impl CheckDerConstraints for u64 {
    open spec fn cp(any: Any) -> bool { true }
    open spec fn cf(any: Any) -> bool { chk_int_ok(any) }
    fn check_constraints(any: &Any) -> (r: Result<()>) { crate::dep::u64_vp_CheckDerConstraints_check_constraints(any) }
}
impl DerAutoDerive for u64 {}
pub fn u64_from_ber<'a>(bytes: &'a [u8]) -> (r: ParseResult<'a, u64>)
    ensures exists|p: PR<u64>| #[trigger] <u64 as FromBer>::ber_rel(bytes@, p) && prr(bytes@, r, p)
{
    let r = crate::dep::T_vp_FromBer_E_from_ber::<u64>(bytes);
    assert(<u64 as FromBer>::ber_rel(bytes@, pint_u64(bytes@, false)));
    r
}
pub fn u64_from_der<'a>(bytes: &'a [u8]) -> (r: ParseResult<'a, u64>)
    ensures exists|p: PR<u64>| #[trigger] <u64 as FromDer>::der_rel(bytes@, p) && prr(bytes@, r, p)
{
    let r = crate::dep::T_vp_FromDer_E_from_der::<u64>(bytes);
    assert(<u64 as FromDer>::der_rel(bytes@, pint_u64(bytes@, true)));
    r
}
} // verus!
}
