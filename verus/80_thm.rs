
// ======================================================================== theorems over the contracts
pub mod vthm {
use vstd::prelude::*;
use crate::vspec::*;
use crate::asn1_rs::*;
verus! {
// ---- C20: what DER accepts, BER reads as the same object
pub open spec fn no_raw(h: HV) -> HV { HV { raw: None, ..h } }
/// equal up to the raw tag bytes remembered inside an unknown object
pub open spec fn cv_eq(a: CV, b: CV) -> bool {
    a == b || (a is Unknown && b is Unknown && a->Unknown_1 == b->Unknown_1 && no_raw(a->Unknown_0) == no_raw(b->Unknown_0))
}
pub open spec fn ov_eq(a: OV, b: OV) -> bool { a.h == b.h && cv_eq(a.c, b.c) }
pub proof fn thm_der_hdr(s: Seq<u8>)
    ensures hdr(s, true) is Ok ==> hdr(s, false) == hdr(s, true)
{ reveal(hdr); }
pub proof fn lemma_dec_raw(h: HV, k: HV, data: Seq<u8>, d: nat)
    requires no_raw(h) == no_raw(k)
    ensures dec(h, data, d) is Ok <==> dec(k, data, d) is Ok, dec(h, data, d) is Ok ==> cv_eq(dec(h, data, d)->Ok_0, dec(k, data, d)->Ok_0)
{ }
pub proof fn thm_der_as(s: Seq<u8>, tag: Tag, len: Length, con: bool, d: nat)
    ensures der_as(s, tag, len, con, d) is Ok ==> read_as(s, tag, len, con, d) == der_as(s, tag, len, con, d)
{
    if let PR::Ok(n, c) = der_as(s, tag, len, con, d) {
        if tag == Tag::BitString {
            let l = len->Definite_0 as int;
            assert(s.take(l).skip(1) =~= s.subrange(1, l));
            assert(s.take(l)[0] == s[0]);
        }
    }
}
pub proof fn thm_der_ber(s: Seq<u8>, d: nat)
    ensures pder(s, d) is Ok ==> pany(s, d) is Ok && pany(s, d)->Ok_0 == pder(s, d)->Ok_0 && ov_eq(pany(s, d)->Ok_1, pder(s, d)->Ok_1)
{
    if let PR::Ok(n, o) = pder(s, d) {
        thm_der_hdr(s);
        lemma_hdr(s, true);
        let (m, h) = (hdr(s, true)->Ok_0, hdr(s, true)->Ok_1);
        let t = s.skip(m);
        let l = h.length->Definite_0 as int;
        let k = HV { class: Class::Universal, constructed: h.constructed, tag: h.tag, length: h.length, raw: None };
        if h.class == Class::Universal {
            thm_der_as(t, h.tag, h.length, h.constructed, d);
            lemma_dec_raw(h, k, t.take(l), d);
            assert(t.take(0) =~= Seq::<u8>::empty());
        }
    }
}
pub proof fn thm_der_tag(s: Seq<u8>, t: Tag)
    ensures pder_tag(s, t) is Ok ==> pwith_tag(s, t) == pder_tag(s, t)
{
    thm_der_hdr(s);
    if let PR::Ok(m, h) = hdr(s, true) { thm_der_as(s.skip(m), h.tag, h.length, h.constructed, 50); }
}
pub proof fn thm_der_int(s: Seq<u8>)
    ensures
        pint(s, true) is Ok ==> pint(s, false) == pint(s, true),
        pint_i32(s, true) is Ok ==> pint_i32(s, false) == pint_i32(s, true), pint_i64(s, true) is Ok ==> pint_i64(s, false) == pint_i64(s, true),
        pint_u32(s, true) is Ok ==> pint_u32(s, false) == pint_u32(s, true), pint_u64(s, true) is Ok ==> pint_u64(s, false) == pint_u64(s, true),
{
    thm_der_hdr(s);
    lemma_hdr(s, true);
    if let PR::Ok(m, h) = hdr(s, true) {
        let l = h.length->Definite_0 as int;
        if l <= s.len() - m { assert(s.skip(m).take(l) =~= s.subrange(m, m + l)); }
    }
}
/// containers, explicit and implicit tags, sequence-of, slices: the user's parser sees the same header and contents
pub proof fn thm_der_frame(s: Seq<u8>)
    ensures frame(s, true) is Ok ==> frame(s, false) == frame(s, true)
{ thm_der_hdr(s); lemma_hdr(s, true); }

// ---- C04: trailing bytes never change the result, truncation is Incomplete
/// the cut at k falls inside the identifier octets of a multi-byte tag
pub open spec fn mid_tag(s: Seq<u8>, k: int) -> bool {
    exists|p: int| 0 <= p < k && k <= s.len() && #[trigger] s[p] % 32 == 31 && forall|j: int| p < j < k ==> s[j] >= 0x80
}
pub open spec fn agree(s: Seq<u8>, t: Seq<u8>, n: int) -> bool { 0 <= n && n <= s.len() && n <= t.len() && forall|k: int| 0 <= k < n ==> s[k] == t[k] }
pub proof fn lemma_high_stable(s: Seq<u8>, t: Seq<u8>, k: int, c: u32)
    requires 1 <= k, high_tag(s, k, c) is Ok, agree(s, t, high_tag(s, k, c)->Ok_0)
    ensures high_tag(t, k, c) == high_tag(s, k, c)
    decreases 6 - k
{
    lemma_high_tag(s, k, c);
    let c2 = ((c << 7u32) | ((s[k] as u32) & 0x7f)) as u32;
    if s[k] >= 0x80 { lemma_high_tag(s, k + 1, c2); lemma_high_stable(s, t, k + 1, c2); }
}
pub proof fn thm_hdr_stable(s: Seq<u8>, t: Seq<u8>, der: bool)
    requires hdr(s, der) is Ok, agree(s, t, hdr(s, der)->Ok_0)
    ensures hdr(t, der) == hdr(s, der)
{
    reveal(hdr);
    lemma_hdr(s, der);
    if s[0] % 32 == 31 { lemma_high_tag(s, 1, 0); lemma_high_stable(s, t, 1, 0); }
    let n = ident_tag(s)->Ok_0;
    assert(ident_tag(t) == ident_tag(s));
    assert(s.take(n) =~= t.take(n));
    let (a, b) = (s.skip(n), t.skip(n));
    assert(a[0] == b[0]);
    if a[0] > 0x80 { let m = a[0] - 0x80; assert(a.subrange(1, 1 + m) =~= b.subrange(1, 1 + m)); }
}
pub proof fn lemma_high_cut(s: Seq<u8>, k: int, c: u32, j: int)
    requires 1 <= k <= j, high_tag(s, k, c) is Ok, j < high_tag(s, k, c)->Ok_0
    ensures high_tag(s.take(j), k, c) is Err, forall|x: int| k <= x < j ==> s[x] >= 0x80
    decreases 6 - k
{
    lemma_high_tag(s, k, c);
    if k < j {
        let c2 = ((c << 7u32) | ((s[k] as u32) & 0x7f)) as u32;
        assert(s.take(j)[k] == s[k]);
        lemma_high_cut(s, k + 1, c2, j);
    }
}
pub proof fn thm_hdr_cut(s: Seq<u8>, der: bool, j: int)
    requires hdr(s, der) is Ok, 0 <= j < hdr(s, der)->Ok_0
    ensures hdr(s.take(j), der) is Inc || mid_tag(s, j)
{
    reveal(hdr);
    lemma_hdr(s, der);
    let t = s.take(j);
    if j > 0 {
        assert(t[0] == s[0]);
        let n = ident_tag(s)->Ok_0;
        if s[0] % 32 == 31 { lemma_high_tag(s, 1, 0); }
        if j < n { lemma_high_cut(s, 1, 0, j); assert(s[0] % 32 == 31); }
        else {
            if s[0] % 32 == 31 { lemma_high_stable(s, t, 1, 0); }
            let (a, b) = (s.skip(n), t.skip(n));
            if b.len() > 0 { assert(b[0] == a[0]); }
        }
    }
}
pub proof fn thm_skip_stable(s: Seq<u8>, t: Seq<u8>, h: HV, d: nat, strict: bool)
    requires skip(s, h, d, strict) is Ok, agree(s, t, skip(s, h, d, strict)->Ok_0)
    ensures skip(t, h, d, strict) == skip(s, h, d, strict)
    decreases d, s.len(), 0nat
{
    lemma_skip(s, h, d, strict);
    if h.length == Length::Indefinite { thm_skip_list_stable(s, t, (d - 1) as nat, strict); }
}
pub proof fn thm_skip_list_stable(s: Seq<u8>, t: Seq<u8>, d: nat, strict: bool)
    requires skip_list(s, d, strict) is Ok, agree(s, t, skip_list(s, d, strict)->Ok_0)
    ensures skip_list(t, d, strict) == skip_list(s, d, strict)
    decreases d, s.len(), 1nat
{
    lemma_skip_list(s, d, strict);
    lemma_hdr(s, false);
    let (n, h) = (hdr(s, false)->Ok_0, hdr(s, false)->Ok_1);
    let (a, b) = (s.skip(n), t.skip(n));
    lemma_skip(a, h, d, strict);
    let m = skip(a, h, d, strict)->Ok_0;
    let e = skip(a, h, d, strict)->Ok_1;
    if !e { lemma_skip_list(s.skip(n + m), d, strict); }
    assert(agree(s, t, n + m));
    thm_hdr_stable(s, t, false);
    assert(agree(a, b, m));
    thm_skip_stable(a, b, h, d, strict);
    if !e {
        assert(agree(s.skip(n + m), t.skip(n + m), skip_list(s.skip(n + m), d, strict)->Ok_0));
        thm_skip_list_stable(s.skip(n + m), t.skip(n + m), d, strict);
    }
}
pub proof fn lemma_mid_shift(s: Seq<u8>, n: int, j: int)
    requires 0 <= n <= j <= s.len(), mid_tag(s.skip(n), j - n)
    ensures mid_tag(s, j)
{
    let a = s.skip(n);
    let p = choose|p: int| 0 <= p < j - n && j - n <= a.len() && #[trigger] a[p] % 32 == 31 && forall|x: int| p < x < j - n ==> a[x] >= 0x80;
    assert(s[p + n] % 32 == 31);
    assert forall|x: int| p + n < x < j implies s[x] >= 0x80 by { assert(a[x - n] >= 0x80); }
}
pub proof fn thm_skip_cut(s: Seq<u8>, h: HV, d: nat, strict: bool, j: int)
    requires skip(s, h, d, strict) is Ok, 0 <= j < skip(s, h, d, strict)->Ok_0
    ensures skip(s.take(j), h, d, strict) is Inc || mid_tag(s, j)
    decreases d, s.len(), 0nat
{
    lemma_skip(s, h, d, strict);
    if h.length == Length::Indefinite { thm_skip_list_cut(s, (d - 1) as nat, strict, j); }
}
pub proof fn thm_skip_list_cut(s: Seq<u8>, d: nat, strict: bool, j: int)
    requires skip_list(s, d, strict) is Ok, 0 <= j < skip_list(s, d, strict)->Ok_0
    ensures skip_list(s.take(j), d, strict) is Inc || mid_tag(s, j)
    decreases d, s.len(), 1nat
{
    lemma_skip_list(s, d, strict);
    lemma_hdr(s, false);
    let t = s.take(j);
    let (n, h) = (hdr(s, false)->Ok_0, hdr(s, false)->Ok_1);
    if j < n { thm_hdr_cut(s, false, j); } else {
        thm_hdr_stable(s, t, false);
        let a = s.skip(n);
        lemma_skip(a, h, d, strict);
        let (m, e) = (skip(a, h, d, strict)->Ok_0, skip(a, h, d, strict)->Ok_1);
        assert(t.skip(n) =~= a.take(j - n));
        if j < n + m {
            thm_skip_cut(a, h, d, strict, j - n);
            if mid_tag(a, j - n) { lemma_mid_shift(s, n, j); }
        } else {
            assert(agree(a, t.skip(n), m));
            thm_skip_stable(a, t.skip(n), h, d, strict);
            assert(!e);
            let b = s.skip(n + m);
            assert(t.skip(n + m) =~= b.take(j - n - m));
            thm_skip_list_cut(b, d, strict, j - n - m);
            if mid_tag(b, j - n - m) { lemma_mid_shift(s, n + m, j); }
        }
    }
}
/// q on t is p on s, where t agrees with s on what p consumed, or t is a proper prefix of that
pub open spec fn stream<T>(s: Seq<u8>, t: Seq<u8>, p: PR<T>, q: PR<T>) -> bool {
    p is Ok ==> 0 <= p->Ok_0 <= s.len() && (agree(s, t, p->Ok_0) ==> q == p) && (t.len() < p->Ok_0 && t == s.take(t.len() as int) ==> q is Inc || mid_tag(s, t.len() as int))
}
pub proof fn thm_hdr_stream(s: Seq<u8>, t: Seq<u8>, der: bool)
    ensures stream(s, t, hdr(s, der), hdr(t, der))
{
    lemma_hdr(s, der);
    if hdr(s, der) is Ok {
        if agree(s, t, hdr(s, der)->Ok_0) { thm_hdr_stable(s, t, der); }
        if t.len() < hdr(s, der)->Ok_0 { thm_hdr_cut(s, der, t.len() as int); }
    }
}
pub proof fn thm_content_stream(s: Seq<u8>, t: Seq<u8>, h: HV, d: nat, strict: bool)
    ensures stream(s, t, content(s, h, d, strict), content(t, h, d, strict))
{
    lemma_skip(s, h, d, strict);
    if skip(s, h, d, strict) is Ok {
        let n = skip(s, h, d, strict)->Ok_0;
        if agree(s, t, n) {
            thm_skip_stable(s, t, h, d, strict);
            assert(s.take(n) =~= t.take(n));
            if h.length == Length::Indefinite { assert(s.take(n - 2) =~= t.take(n - 2)); }
        }
        if t.len() < n { thm_skip_cut(s, h, d, strict, t.len() as int); }
    }
}
/// header and contents octets: the general step from the two streams
pub proof fn lemma_chain<T>(s: Seq<u8>, t: Seq<u8>, der: bool, p: PR<T>, q: PR<T>)
    requires hdr(s, der) is Ok, p is Ok ==> 0 <= p->Ok_0 <= s.len() - hdr(s, der)->Ok_0,
        t.len() >= hdr(s, der)->Ok_0 && hdr(t, der) == hdr(s, der) ==> stream(s.skip(hdr(s, der)->Ok_0), t.skip(hdr(s, der)->Ok_0), p, q)
    ensures
        p is Ok && agree(s, t, hdr(s, der)->Ok_0 + p->Ok_0) ==> hdr(t, der) == hdr(s, der) && q == p,
        p is Ok && t.len() < hdr(s, der)->Ok_0 + p->Ok_0 && t == s.take(t.len() as int) ==> hdr(t, der) is Inc || mid_tag(s, t.len() as int) || (hdr(t, der) == hdr(s, der) && q is Inc),
{
    let n = hdr(s, der)->Ok_0;
    lemma_hdr(s, der);
    let j = t.len() as int;
    thm_hdr_stream(s, t, der);
    if p is Ok && agree(s, t, n + p->Ok_0) { assert(agree(s.skip(n), t.skip(n), p->Ok_0)); }
    if p is Ok && j < n + p->Ok_0 && t == s.take(j) {
        if j >= n {
            assert(agree(s, t, n));
            assert(t.skip(n) =~= s.skip(n).take(j - n));
            if mid_tag(s.skip(n), j - n) { lemma_mid_shift(s, n, j); }
        }
    }
}
pub proof fn thm_any_stream(s: Seq<u8>, t: Seq<u8>)
    ensures stream(s, t, anyp(s), anyp(t))
{
    lemma_hdr(s, false);
    if let PR::Ok(n, h) = hdr(s, false) {
        lemma_skip(s.skip(n), h, 50, false);
        if t.len() >= n { thm_content_stream(s.skip(n), t.skip(n), h, 50, false); }
        lemma_chain(s, t, false, content(s.skip(n), h, 50, false), content(t.skip(n), h, 50, false));
    }
}
pub proof fn thm_ber_stream(s: Seq<u8>, t: Seq<u8>, d: nat, tag: Tag)
    ensures stream(s, t, pany(s, d), pany(t, d)), stream(s, t, pany_tag(s, tag, d), pany_tag(t, tag, d))
{ thm_any_stream(s, t); }
pub proof fn thm_as_stream(s: Seq<u8>, t: Seq<u8>, tag: Tag, len: Length, con: bool, d: nat)
    ensures stream(s, t, read_as(s, tag, len, con, d), read_as(t, tag, len, con, d))
{
    let h = HV { class: Class::Universal, constructed: con, tag, length: len, raw: None };
    thm_content_stream(s, t, h, d, true);
}
pub proof fn thm_tag_stream(s: Seq<u8>, t: Seq<u8>, tag: Tag)
    ensures stream(s, t, pwith_tag(s, tag), pwith_tag(t, tag))
{
    lemma_hdr(s, false);
    if let PR::Ok(n, h) = hdr(s, false) {
        let h2 = HV { class: Class::Universal, constructed: h.constructed, tag: h.tag, length: h.length, raw: None };
        lemma_skip(s.skip(n), h2, 50, true);
        if t.len() >= n { thm_as_stream(s.skip(n), t.skip(n), h.tag, h.length, h.constructed, 50); }
        lemma_chain(s, t, false, read_as(s.skip(n), h.tag, h.length, h.constructed, 50), read_as(t.skip(n), h.tag, h.length, h.constructed, 50));
    }
}
pub proof fn thm_der_as_stream(s: Seq<u8>, t: Seq<u8>, tag: Tag, len: Length, con: bool, d: nat)
    ensures stream(s, t, der_as(s, tag, len, con, d), der_as(t, tag, len, con, d))
{
    thm_as_stream(s, t, tag, len, con, d);
    if let PR::Ok(n, c) = der_as(s, tag, len, con, d) {
        let l = len->Definite_0 as int;
        if tag != Tag::BitString {
            let h = HV { class: Class::Universal, constructed: con, tag, length: len, raw: None };
            assert(n == l || l == 0);
        }
        if agree(s, t, l) {
            assert(s.take(l) =~= t.take(l));
            if tag == Tag::BitString { assert(s.subrange(1, l) =~= t.subrange(1, l)); }
        }
    }
}
pub proof fn thm_der_stream(s: Seq<u8>, t: Seq<u8>, d: nat, tag: Tag)
    ensures stream(s, t, pder(s, d), pder(t, d)), stream(s, t, pder_tag(s, tag), pder_tag(t, tag))
{
    lemma_hdr(s, true);
    if let PR::Ok(n, h) = hdr(s, true) {
        let h2 = HV { class: Class::Universal, constructed: h.constructed, tag: h.tag, length: h.length, raw: None };
        lemma_skip(s.skip(n), h2, 50, true);
        lemma_skip(s.skip(n), h2, d, true);
        lemma_skip(s.skip(n), h, d, true);
        if t.len() >= n {
            thm_der_as_stream(s.skip(n), t.skip(n), h.tag, h.length, h.constructed, 50);
            thm_der_as_stream(s.skip(n), t.skip(n), h.tag, h.length, h.constructed, d);
            thm_content_stream(s.skip(n), t.skip(n), h, d, true);
        }
        lemma_chain(s, t, true, der_as(s.skip(n), h.tag, h.length, h.constructed, 50), der_as(t.skip(n), h.tag, h.length, h.constructed, 50));
        lemma_chain(s, t, true, der_body(s.skip(n), h, d), der_body(t.skip(n), h, d));
    }
}
pub proof fn thm_int_stream(s: Seq<u8>, t: Seq<u8>, der: bool)
    ensures stream(s, t, pint(s, der), pint(t, der)),
        stream(s, t, pint_i32(s, der), pint_i32(t, der)), stream(s, t, pint_i64(s, der), pint_i64(t, der)),
        stream(s, t, pint_u32(s, der), pint_u32(t, der)), stream(s, t, pint_u64(s, der), pint_u64(t, der)),
{
    if !der { thm_any_stream(s, t); } else {
        lemma_hdr(s, true);
        if let PR::Ok(n, h) = hdr(s, true) {
            let l = h.length->Definite_0 as int;
            thm_hdr_stream(s, t, true);
            if s.len() >= t.len() && t.len() >= n && t == s.take(t.len() as int) { assert(agree(s, t, n)); }
            if l <= s.len() - n && agree(s, t, n + l) { assert(s.subrange(n, n + l) =~= t.subrange(n, n + l)); assert(agree(s, t, n)); }
        }
    }
}
} // verus!
}
