
// ======================================================================== cookie-factory
pub mod cookie_factory {
use vstd::prelude::*;
use crate::vspec::*;
use crate::shim::*;
use alloc::vec::Vec;
verus! {
#[verifier::external_body]
pub struct IoError { x: u8 }
pub enum GenError { BufferTooSmall(usize), BufferTooBig(usize), InvalidOffset, IoError(IoError), CustomError(u32), NotYetImplemented }
impl VpFrom<GenError> for GenError { open spec fn fv(e: Self, r: Self) -> bool { r == e } fn vp_from(e: Self) -> (r: Self) { e } }
pub struct WriteContext<W> { pub write: W, pub position: u64 }
pub type GenResult<W> = Result<WriteContext<W>, GenError>;
pub fn vp_ctx<W: Write>(write: W) -> (r: WriteContext<W>) ensures r.write == write { WriteContext { write, position: 0 } }
/// applying a serializer to `out` gave r: it appended exactly e (a writer that cannot fail does not)
pub open spec fn wr<W: Write>(out: WriteContext<W>, r: GenResult<W>, e: Seq<u8>) -> bool {
    match r { Ok(o) => o.write.wrote() == out.write.wrote() + e, Err(_) => !W::sure() }
}
pub broadcast proof fn lemma_wr0<W: Write>(out: WriteContext<W>)
    ensures #[trigger] wr(out, Ok(out), Seq::empty())
{ assert(out.write.wrote() + Seq::<u8>::empty() =~= out.write.wrote()); }
pub broadcast proof fn lemma_wr2<W: Write>(out: WriteContext<W>, o: WriteContext<W>, a: Seq<u8>, r: GenResult<W>, b: Seq<u8>)
    requires #[trigger] wr(out, Ok(o), a), #[trigger] wr(o, r, b), a.len() > 0
    ensures wr(out, r, a + b)
{ if r is Ok { assert((out.write.wrote() + a) + b =~= out.write.wrote() + (a + b)); } }
pub broadcast proof fn lemma_wr2g<W: Write>(out: WriteContext<W>, o: WriteContext<W>, a: Seq<u8>, r: GenResult<W>, b: Seq<u8>)
    requires #[trigger] wr(out, Ok(o), a), wr(o, r, b)
    ensures #[trigger] wr(out, r, a + b)
{ if r is Ok { assert((out.write.wrote() + a) + b =~= out.write.wrote() + (a + b)); } }
pub broadcast group group_wr { lemma_wr0, lemma_wr2 }
pub broadcast group group_wrg { lemma_wr0, lemma_wr2g }
/// the writer W behaves: a fresh one is empty, and as_ref gives what was written
pub open spec fn wok<W: Write + Default + AsRef<[u8]>>() -> bool {
    &&& forall|w: W| #[trigger] W::dv(w) ==> w.wrote() == Seq::<u8>::empty()
    &&& forall|w: W, r: &[u8]| #[trigger] w.ar(r) ==> r@ == w.wrote()
}
pub proof fn lemma_wok_vec() ensures wok::<Vec<u8>>()
{
    assert forall|w: Vec<u8>| #[trigger] <Vec<u8> as Default>::dv(w) implies w.wrote() == Seq::<u8>::empty() by {}
    assert forall|w: Vec<u8>, r: &[u8]| #[trigger] w.ar(r) implies r@ == w.wrote() by {}
}
} // verus!
pub mod bytes {
    use vstd::prelude::*;
    use crate::cookie_factory::*;
    use crate::shim::*;
    verus! {
    // assumed: cookie_factory::bytes::be_u8, applied
    #[verifier::external_body]
    pub fn be_u8<W: Write>(i: u8, out: WriteContext<W>) -> (r: GenResult<W>) ensures wr(out, r, seq![i]) { unimplemented!() }
    }
}
pub mod combinator {
    use vstd::prelude::*;
    use crate::cookie_factory::*;
    use crate::shim::*;
    verus! {
    // assumed: cookie_factory::combinator::slice, applied
    #[verifier::external_body]
    pub fn slice<S: AsRef<[u8]>, W: Write>(data: S, out: WriteContext<W>) -> (r: GenResult<W>)
        ensures exists|d: &[u8]| #[trigger] data.ar(d) && wr(out, r, d@)
    { unimplemented!() }
    }
}
}

// ======================================================================== serialisation
pub mod vser {
use vstd::prelude::*;
use crate::vspec::*;
use crate::asn1_rs::*;
use crate::ber::ber::{BerObject, BerObjectContent};
verus! {
/// minimal big endian octets of n (none for 0)
pub open spec fn be_min(n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::empty() } else { be_min(n / 256).push((n % 256) as u8) } }
/// X.690 8.1.3, definite form, minimal
pub open spec fn enc_len(l: Length) -> Seq<u8> {
    match l {
        Length::Definite(n) => if n <= 127 { seq![n as u8] } else { seq![(128 + be_min(n as nat).len()) as u8] + be_min(n as nat) },
        Length::Indefinite => seq![0x80u8],
    }
}
pub open spec fn class_num(c: Class) -> u8 { match c { Class::Universal => 0, Class::Application => 1, Class::ContextSpecific => 2, Class::Private => 3 } }
/// base 128 digits of n with the continuation bit
pub open spec fn hi128(n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::empty() } else { hi128(n / 128).push((128 + n % 128) as u8) } }
/// X.690 8.1.2
pub open spec fn enc_tag(c: Class, constructed: bool, t: Tag) -> Seq<u8> {
    let b0 = class_num(c) * 64 + (if constructed { 32int } else { 0 });
    if t.0 <= 30 { seq![(b0 + t.0) as u8] } else { seq![(b0 + 31) as u8] + hi128((t.0 / 128) as nat).push((t.0 % 128) as u8) }
}
pub open spec fn enc_hdr(h: HV) -> Seq<u8> { enc_tag(h.class, h.constructed, h.tag) + enc_len(h.length) }
/// contents octets of a value
pub open spec fn enc_content(c: CV) -> Seq<u8> decreases c {
    match c {
        CV::EndOfContent => Seq::empty(),
        CV::Boolean(b) => seq![if b { 0xffu8 } else { 0u8 }],
        CV::Integer(s) => s,
        CV::BitString(n, s) => seq![n] + s,
        CV::OctetString(s) => s,
        CV::Null => Seq::empty(),
        CV::Enum(n) => if n == 0 { seq![0u8] } else { be_min(n as nat) },
        CV::OID(s) => s,
        CV::RelativeOID(s) => s,
        CV::Str(_, s) => s,
        CV::BmpString(s) => s,
        CV::UniversalString(s) => s,
        CV::UTCTime(t) => disp(t),
        CV::GeneralizedTime(t) => disp(t),
        CV::Sequence(l) => encs(l),
        CV::Set(l) => encs(l),
        CV::Optional(None) => Seq::empty(),
        CV::Optional(Some(o)) => enc_content(o.c),
        CV::Tagged(_, _, o) => enc(*o),
        CV::Unknown(_, s) => s,
    }
}
/// identifier of the object, the length of its contents, its contents
pub open spec fn enc(o: OV) -> Seq<u8> decreases o { enc_tag(o.h.class, o.h.constructed, o.h.tag) + enc_len(Length::Definite(enc_content(o.c).len() as usize)) + enc_content(o.c) }
pub open spec fn encs(s: Seq<OV>) -> Seq<u8> decreases s { if s.len() == 0 { Seq::empty() } else { encs(s.drop_last()) + enc(s.last()) } }
pub uninterp spec fn disp<T>(t: T) -> Seq<u8>;

pub proof fn lemma_be_min(s: Seq<u8>)
    requires s.len() == 0 || s[0] != 0
    ensures be_min(be(s) as nat) == s
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_be_bound(t);
        lemma_be_min(t);
        assert(be(s) == be(t) * 256 + s.last());
        if t.len() > 0 { lemma_be_first(t); lemma_be_bound(t.skip(1)); lemma_pow256_pos((t.len() - 1) as nat); assert(t[0] * pow256((t.len() - 1) as nat) >= 1) by (nonlinear_arith) requires t[0] >= 1, pow256((t.len() - 1) as nat) >= 1; }
        assert(be(s) > 0);
        assert(s =~= t.push(s.last()));
    }
}
/// dropping all leading zero octets of the big endian form leaves the minimal one
pub broadcast proof fn lemma_strip(a: Seq<u8>, s: Seq<u8>, n: int, m: nat)
    requires #[trigger] be(a) == m, a.len() == s.len(), forall|k: int| 0 <= k < a.len() ==> a[k] == s[k],
        0 <= n <= s.len(), forall|k: int| 0 <= k < n ==> s[k] == 0, n < s.len() ==> s[n] != 0
    ensures #[trigger] be_min(m) == #[trigger] s.skip(n)
{
    assert(s =~= a);
    assert(s =~= rep(0, n as nat) + s.skip(n));
    lemma_pad0(n as nat, s.skip(n));
    lemma_be_min(s.skip(n));
}
pub broadcast proof fn lemma_or80(x: u8)
    requires x < 128
    ensures #[trigger] (0x80u8 | x) == 128 + x
{ assert(x < 128 ==> (0x80u8 | x) == add(128, x)) by (bit_vector); }
pub broadcast proof fn lemma_shl6(c: u8)
    requires c < 4
    ensures #[trigger] (c << 6) == c * 64
{ assert(c < 4 ==> (c << 6) == mul(c, 64)) by (bit_vector); }
pub broadcast proof fn lemma_shl5(c: u8)
    requires c < 2
    ensures #[trigger] (c << 5) == c * 32
{ assert(c < 2 ==> (c << 5) == mul(c, 32)) by (bit_vector); }
pub broadcast proof fn lemma_or3(c: u8, p: u8, t: u8)
    requires c == 0 || c == 64 || c == 128 || c == 192, p == 0 || p == 32, t < 32
    ensures #[trigger] (c | p | t) == c + p + t
{ assert((c == 0 || c == 64 || c == 128 || c == 192) && (p == 0 || p == 32) && t < 32 ==> (c | p | t) == add(add(c, p), t)) by (bit_vector); }
pub open spec fn p7(s: int) -> int { if s == 0 { 1 } else if s == 7 { 0x80 } else if s == 14 { 0x4000 } else if s == 21 { 0x20_0000 } else if s == 28 { 0x1000_0000 } else { 0x8_0000_0000 } }
/// tag >> s for the shifts used by the base 128 form
pub open spec fn q7(t: u32, s: int) -> nat { (t as int / p7(s)) as nat }
pub proof fn lemma_q7(t: u32, s: u32)
    requires s <= 28, s % 7 == 0
    ensures
        (t >> s) == q7(t, s as int), q7(t, s + 7) == q7(t, s as int) / 128, q7(t, 0) == t, q7(t, 35) == 0,
        s >= 7 && q7(t, s as int) > 0 ==> q7(t, s - 7) > 0,
        (0x80u8 | ((t >> s) & 0x7f) as u8) == 128 + q7(t, s as int) % 128,
        ((t & 0x7f) as u8) == t % 128,
{
    assert((t >> 0u32) == t) by (bit_vector);
    assert((t >> 7u32) == t / 0x80) by (bit_vector);
    assert((t >> 14u32) == t / 0x4000) by (bit_vector);
    assert((t >> 21u32) == t / 0x20_0000) by (bit_vector);
    assert((t >> 28u32) == t / 0x1000_0000) by (bit_vector);
    assert((t & 0x7f) == t % 128) by (bit_vector);
    let x = t >> s;
    assert((x & 0x7f) == x % 128) by (bit_vector);
    lemma_or80((x & 0x7f) as u8);
}
pub proof fn lemma_ovs_step(v: Seq<BerObject>, k: int)
    requires 0 <= k < v.len()
    ensures encs(ovs(v.take(k + 1))) == encs(ovs(v.take(k))) + enc(ov(v[k]))
{ assert(ovs(v.take(k + 1)).drop_last() =~= ovs(v.take(k))); }
pub proof fn lemma_ovs_ends(v: Seq<BerObject>)
    ensures encs(ovs(v.take(0))) == Seq::<u8>::empty(), v.take(v.len() as int) == v
{ assert(v.take(v.len() as int) =~= v); }
pub broadcast proof fn lemma_ov_c(o: BerObject) ensures (#[trigger] ov(o)).c == cv(o.content)
{}
pub broadcast proof fn lemma_cv_list(c: BerObjectContent)
    requires c is Sequence || c is Set
    ensures c is Sequence ==> #[trigger] cv(c) == CV::Sequence(ovs(c->Sequence_0@)), c is Set ==> cv(c) == CV::Set(ovs(c->Set_0@))
{
    match c {
        BerObjectContent::Sequence(v) => { assert(cv(c)->Sequence_0 =~= ovs(v@)); }
        BerObjectContent::Set(v) => { assert(cv(c)->Set_0 =~= ovs(v@)); }
        _ => {}
    }
}
} // verus!
}
