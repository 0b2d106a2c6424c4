
// ======================================================================== round trip
pub mod vrt {
use vstd::prelude::*;
use crate::vspec::*;
use crate::asn1_rs::*;
verus! {
pub proof fn lemma_be_be_min(n: nat)
    ensures be(be_min(n)) == n, n > 0 ==> be_min(n).len() > 0 && be_min(n)[0] != 0
    decreases n
{
    if n > 0 {
        lemma_be_be_min(n / 256);
        assert(be_min(n).drop_last() =~= be_min(n / 256));
        if n / 256 == 0 { assert(be_min(n)[0] == n % 256); }
    }
}
pub proof fn lemma_be_min_len(n: nat, k: nat)
    requires n < pow256(k)
    ensures be_min(n).len() <= k
    decreases k
{
    if n > 0 {
        if k == 0 { } else {
            assert(pow256(k) == 256 * pow256((k - 1) as nat));
            assert(n / 256 < pow256((k - 1) as nat)) by (nonlinear_arith) requires n < 256 * pow256((k - 1) as nat);
            lemma_be_min_len(n / 256, (k - 1) as nat);
        }
    }
}
pub proof fn lemma_len_rt(l: Length, r: Seq<u8>, con: bool, der: bool)
    requires l is Definite || (con && !der)
    ensures len_octets(enc_len(l) + r, con, der) == PR::Ok(enc_len(l).len() as int, l)
{
    let s = enc_len(l) + r;
    match l {
        Length::Definite(n) => {
            if n <= 127 { assert(s[0] == n); } else {
                lemma_be_be_min(n as nat);
                assert(pow256(8) == 0x1_0000_0000_0000_0000) by (compute);
                lemma_be_min_len(n as nat, 8);
                let k = be_min(n as nat).len();
                assert(s[0] == 128 + k);
                assert(s.subrange(1, 1 + k as int) =~= be_min(n as nat));
            }
        }
        Length::Indefinite => { assert(s[0] == 0x80); }
    }
}
pub proof fn lemma_hi128_len(n: nat)
    requires n < 0x1000_0000
    ensures hi128(n).len() <= 4
{ reveal_with_fuel(hi128, 6); }
/// reading base 128 digits gives the number
pub proof fn lemma_hi_rt(s: Seq<u8>, n: nat)
    requires n < 0x1000_0000, 1 + hi128(n).len() <= s.len(), s.subrange(1, 1 + hi128(n).len() as int) == hi128(n)
    ensures high_tag(s, 1, 0) == high_tag(s, 1 + hi128(n).len() as int, n as u32)
    decreases n
{
    if n > 0 {
        let m = n / 128;
        let k = hi128(m).len() as int;
        lemma_hi128_len(n);
        assert(s.subrange(1, 1 + k) =~= hi128(m)) by { assert(s.subrange(1, 2 + k).subrange(0, k) =~= s.subrange(1, 1 + k)); assert(hi128(n).subrange(0, k) =~= hi128(m)); }
        lemma_hi_rt(s, m);
        let b = s[1 + k];
        assert(b == hi128(n)[k]) by { assert(s.subrange(1, 2 + k)[k] == s[1 + k]); }
        assert(b == 128 + n % 128);
        let (c, x) = (m as u32, b as u32);
        assert(c < 0x200_0000 && 128 <= x < 256 ==> ((c << 7u32) | (x & 0x7f)) == add(mul(c, 128), sub(x, 128))) by (bit_vector);
        assert(((c << 7u32) | ((b as u32) & 0x7f)) as u32 == n);
    }
}
pub proof fn lemma_tag_rt(c: Class, con: bool, t: Tag, r: Seq<u8>)
    ensures ({ let s = enc_tag(c, con, t) + r;
        ident_tag(s) == PR::Ok(enc_tag(c, con, t).len() as int, t.0) && class_of(s[0]) == c && ((s[0] / 32) % 2 == 1) == con })
{
    let e = enc_tag(c, con, t);
    let s = e + r;
    assert(s[0] == e[0]);
    if t.0 > 30 {
        let n = (t.0 / 128) as nat;
        let k = hi128(n).len() as int;
        lemma_hi128_len(n);
        assert(s.subrange(1, 1 + k) =~= hi128(n));
        lemma_hi_rt(s, n);
        assert(s[1 + k] == t.0 % 128);
        let (m, b) = (n as u32, s[1 + k]);
        let x = b as u32;
        assert(m < 0x200_0000 && x < 128 ==> ((m << 7u32) | (x & 0x7f)) == add(mul(m, 128), x)) by (bit_vector);
        assert(((m << 7u32) | ((b as u32) & 0x7f)) as u32 == t.0);
    }
}
/// C15: reading an encoded header back gives the same class, form, tag number and length
pub proof fn thm_hdr_rt(h: HV, r: Seq<u8>, der: bool)
    requires h.length is Definite || (h.constructed && !der)
    ensures hdr(enc_hdr(h) + r, der) == PR::Ok(enc_hdr(h).len() as int, HV { raw: Some(enc_tag(h.class, h.constructed, h.tag)), ..h })
{
    reveal(hdr);
    let (a, b) = (enc_tag(h.class, h.constructed, h.tag), enc_len(h.length));
    let s = enc_hdr(h) + r;
    assert(s =~= a + (b + r));
    lemma_tag_rt(h.class, h.constructed, h.tag, b + r);
    assert(s.skip(a.len() as int) =~= b + r);
    lemma_len_rt(h.length, r, h.constructed, der);
    assert(s.take(a.len() as int) =~= a);
}
/// C15: no shorter identifier or length octets exist for the form
pub proof fn thm_hdr_min(h: HV)
    ensures
        h.length is Definite && h.length->Definite_0 > 127 ==> ({ let e = enc_len(h.length); e.len() >= 2 && e[0] == 128 + (e.len() - 1) && e[1] != 0 && be(e.skip(1)) == h.length->Definite_0 }),
        h.tag.0 > 30 ==> ({ let e = enc_tag(h.class, h.constructed, h.tag); e.len() >= 2 && e[1] != 0x80 && e.last() < 0x80 && forall|k: int| 1 <= k < e.len() - 1 ==> e[k] >= 0x80 }),
{
    if h.length is Definite && h.length->Definite_0 > 127 {
        let n = h.length->Definite_0 as nat;
        lemma_be_be_min(n);
        assert(pow256(8) == 0x1_0000_0000_0000_0000) by (compute);
        lemma_be_min_len(n, 8);
        assert(enc_len(h.length).skip(1) =~= be_min(n));
    }
    if h.tag.0 > 30 { lemma_hi128_digits((h.tag.0 / 128) as nat); }
}
pub proof fn lemma_hi128_digits(n: nat)
    ensures forall|k: int| 0 <= k < hi128(n).len() ==> hi128(n)[k] >= 0x80, n > 0 ==> hi128(n).len() > 0 && hi128(n)[0] != 0x80
    decreases n
{ if n > 0 { lemma_hi128_digits(n / 128); if n / 128 == 0 { assert(hi128(n / 128).len() == 0); assert(hi128(n)[0] == 128 + n % 128); } } }

// ---- objects
/// header without what an encoding may change: the length and the bytes of the tag
pub open spec fn bare(h: HV) -> HV { HV { length: Length::Definite(0), raw: None, ..h } }
/// a value without these
pub open spec fn strip_c(c: CV) -> CV decreases c {
    match c {
        CV::Sequence(l) => CV::Sequence(strips(l)), CV::Set(l) => CV::Set(strips(l)),
        CV::Tagged(a, t, o) => CV::Tagged(a, t, Box::new(strip(*o))),
        CV::Unknown(h, s) => CV::Unknown(bare(h), s),
        _ => c,
    }
}
pub open spec fn strip(o: OV) -> OV decreases o { OV { h: bare(o.h), c: strip_c(o.c) } }
pub open spec fn strips(l: Seq<OV>) -> Seq<OV> decreases l { if l.len() == 0 { Seq::empty() } else { seq![strip(l[0])] + strips(l.skip(1)) } }
/// the header and value that reading an encoding gives
pub open spec fn hx(h: HV, n: nat) -> HV { HV { length: Length::Definite(n as usize), raw: Some(enc_tag(h.class, h.constructed, h.tag)), ..h } }
pub open spec fn norm_c(k: HV, c: CV) -> CV decreases c {
    match c { CV::Sequence(l) => CV::Sequence(norms(l)), CV::Set(l) => CV::Set(norms(l)), CV::Unknown(_, s) => CV::Unknown(k, s), _ => c }
}
pub open spec fn norm(o: OV) -> OV decreases o { OV { h: hx(o.h, enc_content(o.c).len()), c: norm_c(hx(o.h, enc_content(o.c).len()), o.c) } }
pub open spec fn norms(l: Seq<OV>) -> Seq<OV> decreases l { if l.len() == 0 { Seq::empty() } else { seq![norm(l[0])] + norms(l.skip(1)) } }
/// a universal tag number without a type of its own here
pub open spec fn other_tag(t: Tag) -> bool {
    !(is_str_tag(t) || t == Tag::EndOfContent || t == Tag::Boolean || t == Tag::Integer || t == Tag::BitString || t == Tag::OctetString || t == Tag::Null || t == Tag::Oid
    || t == Tag::RelativeOid || t == Tag::Enumerated || t == Tag::BmpString || t == Tag::UniversalString || t == Tag::UtcTime || t == Tag::GeneralizedTime || t == Tag::Sequence || t == Tag::Set)
}
/// value c fits a universal header h, nested at most d levels (UTCTime, GeneralizedTime, OPTIONAL, tagged values and ENUMERATED above 2^32-1 left out)
pub open spec fn wfc(h: HV, c: CV, d: nat) -> bool decreases c {
    d > 0 && match c {
        CV::EndOfContent => h.tag == Tag::EndOfContent,
        CV::Boolean(_) => h.tag == Tag::Boolean,
        CV::Integer(_) => h.tag == Tag::Integer,
        CV::BitString(_, _) => h.tag == Tag::BitString && !h.constructed,
        CV::OctetString(_) => h.tag == Tag::OctetString,
        CV::Null => h.tag == Tag::Null,
        CV::Enum(n) => h.tag == Tag::Enumerated && n <= u32::MAX && !h.constructed,
        CV::OID(_) => h.tag == Tag::Oid,
        CV::RelativeOID(_) => h.tag == Tag::RelativeOid,
        CV::Str(t, s) => h.tag == t && is_str_tag(t) && !h.constructed && charset_ok(t, s),
        CV::BmpString(s) => h.tag == Tag::BmpString && !h.constructed && s.len() % 2 == 0 && utf16_ok(u16s(s)),
        CV::UniversalString(_) => h.tag == Tag::UniversalString && !h.constructed,
        CV::Sequence(l) => h.tag == Tag::Sequence && h.constructed && wfs(l, (d - 1) as nat),
        CV::Set(l) => h.tag == Tag::Set && h.constructed && wfs(l, (d - 1) as nat),
        CV::Unknown(k, _) => other_tag(h.tag) && bare(k) == bare(h),
        _ => false,
    }
}
pub open spec fn wf(o: OV, d: nat) -> bool decreases o {
    if o.h.class != Class::Universal { d > 0 && o.c is Unknown && bare(o.c->Unknown_0) == bare(o.h) } else { wfc(o.h, o.c, d) }
}
pub open spec fn wfs(l: Seq<OV>, d: nat) -> bool decreases l { l.len() == 0 || (wf(l[0], d) && wfs(l.skip(1), d)) }
pub proof fn lemma_encs_front(l: Seq<OV>)
    requires l.len() > 0
    ensures encs(l) == enc(l[0]) + encs(l.skip(1))
    decreases l.len()
{
    if l.len() == 1 {
        assert(l.drop_last() =~= Seq::<OV>::empty());
        assert(l.skip(1) =~= Seq::<OV>::empty());
        assert(encs(l) =~= enc(l[0]) + encs(l.skip(1)));
    } else {
        lemma_encs_front(l.drop_last());
        assert(l.drop_last().skip(1) =~= l.skip(1).drop_last());
        assert(l.skip(1).last() == l.last());
        assert(encs(l) =~= enc(l[0]) + encs(l.skip(1)));
    }
}
/// the element written by enc is framed by anyp
pub proof fn lemma_any_rt(o: OV, r: Seq<u8>)
    requires enc(o).len() <= usize::MAX
    ensures anyp(enc(o) + r) == PR::Ok(enc(o).len() as int, (hx(o.h, enc_content(o.c).len()), enc_content(o.c)))
{
    let c = enc_content(o.c);
    let k = HV { length: Length::Definite(c.len() as usize), ..o.h };
    let s = enc(o) + r;
    assert(s =~= enc_hdr(k) + (c + r));
    thm_hdr_rt(k, c + r, false);
    let n = enc_hdr(k).len() as int;
    assert(s.skip(n) =~= c + r);
    assert((c + r).take(c.len() as int) =~= c);
    let h = hx(o.h, c.len());
    assert(hdr(s, false) == PR::Ok(n, h));
    assert(skip(c + r, h, 50, false) == PR::Ok(c.len() as int, is_eoc(h, false)));
}
/// decoding the contents octets of an encoding gives the value back
pub proof fn lemma_dec_rt(k: HV, c: CV, d: nat)
    requires k.class == Class::Universal, k.length == Length::Definite(enc_content(c).len() as usize), wfc(k, c, d), enc_content(c).len() <= usize::MAX
    ensures dec(k, enc_content(c), d) == DR::Ok(norm_c(k, c))
    decreases c
{
    let e = enc_content(c);
    match c {
        CV::BitString(n, s) => { assert(e.skip(1) =~= s); }
        CV::Enum(n) => { if n == 0 { assert(e.drop_last() =~= Seq::<u8>::empty()); assert(be(e.drop_last()) == 0); assert(be(e) == 0); } else { lemma_be_be_min(n as nat); } }
        CV::Sequence(l) => { lemma_list_rt(l, (d - 1) as nat); }
        CV::Set(l) => { lemma_list_rt(l, (d - 1) as nat); }
        _ => {}
    }
}
pub proof fn lemma_list_rt(l: Seq<OV>, d: nat)
    requires wfs(l, d), encs(l).len() <= usize::MAX
    ensures dec_list(encs(l), d) == DR::Ok(norms(l))
    decreases l
{
    if l.len() > 0 {
        lemma_encs_front(l);
        let (o, t) = (l[0], l.skip(1));
        lemma_any_rt(o, encs(t));
        lemma_any(encs(l));
        let k = hx(o.h, enc_content(o.c).len());
        lemma_wf_hdr(o, k, d);
        if o.h.class == Class::Universal { lemma_dec_rt(k, o.c, d); }
        assert(encs(l).skip(enc(o).len() as int) =~= encs(t));
        lemma_list_rt(t, d);
        assert(encs(l).len() > 0);
        assert(dec(k, enc_content(o.c), d) == DR::Ok(norm_c(k, o.c)));
        assert(anyp(encs(l)) == PR::Ok(enc(o).len() as int, (k, enc_content(o.c))));
        assert(norms(l) == seq![norm(o)] + norms(t));
        assert(norm(o) == OV { h: k, c: norm_c(k, o.c) });
    }
}
pub proof fn lemma_wf_hdr(o: OV, k: HV, d: nat)
    requires wf(o, d), bare(k) == bare(o.h)
    ensures wf(OV { h: k, c: o.c }, d)
{ }
/// C17: parsing what was written for a well-formed object consumes it and gives the object back
pub proof fn thm_rt(o: OV, r: Seq<u8>, d: nat)
    requires wf(o, d), enc(o).len() <= usize::MAX
    ensures pany(enc(o) + r, d) == PR::Ok(enc(o).len() as int, norm(o)), strip(norm(o)) == strip(o)
{
    lemma_any_rt(o, r);
    let k = hx(o.h, enc_content(o.c).len());
    lemma_wf_hdr(o, k, d);
    if o.h.class == Class::Universal { lemma_dec_rt(k, o.c, d); }
    lemma_strip1(o, d);
}
pub proof fn lemma_strip1(o: OV, d: nat)
    requires wf(o, d)
    ensures strip(norm(o)) == strip(o)
    decreases o
{
    match o.c {
        CV::Sequence(l) => { lemma_strips(l, (d - 1) as nat); }
        CV::Set(l) => { lemma_strips(l, (d - 1) as nat); }
        _ => {}
    }
}
pub proof fn lemma_strips(l: Seq<OV>, d: nat)
    requires wfs(l, d)
    ensures strips(norms(l)) == strips(l)
    decreases l
{
    if l.len() > 0 {
        lemma_strip1(l[0], d);
        lemma_strips(l.skip(1), d);
        assert(norms(l).skip(1) =~= norms(l.skip(1)));
    }
}
/// no UTCTime, GeneralizedTime inside
pub open spec fn plain(c: CV) -> bool decreases c {
    match c { CV::UTCTime(_) | CV::GeneralizedTime(_) => false, CV::Sequence(l) => plains(l), CV::Set(l) => plains(l), _ => true }
}
pub open spec fn plains(l: Seq<OV>) -> bool decreases l { l.len() == 0 || (plain(l[0].c) && plains(l.skip(1))) }
/// what decoding returns is well formed
pub proof fn lemma_dec_wf(h: HV, s: Seq<u8>, d: nat)
    requires dec(h, s, d) is Ok, plain(dec(h, s, d)->Ok_0)
    ensures wf(OV { h, c: dec(h, s, d)->Ok_0 }, d)
    decreases d, 0nat, 0nat
{
    let c = dec(h, s, d)->Ok_0;
    if h.class == Class::Universal {
        if h.tag == Tag::Sequence || h.tag == Tag::Set { lemma_dec_list_wf(s, (d - 1) as nat); assert(wfc(h, c, d)); }
        else { assert(dec_prim(h, s) == DR::Ok(c)); lemma_be_bound(s); assert(wfc(h, c, d)); }
    }
}
pub proof fn lemma_dec_list_wf(s: Seq<u8>, d: nat)
    requires dec_list(s, d) is Ok, plains(dec_list(s, d)->Ok_0)
    ensures wfs(dec_list(s, d)->Ok_0, d)
    decreases d, s.len(), 1nat
{
    if s.len() > 0 {
        if let PR::Ok(n, (h, c)) = anyp(s) {
            let l = dec_list(s, d)->Ok_0;
            let t = dec_list(s.skip(n), d)->Ok_0;
            assert(l.skip(1) =~= t);
            assert(l[0] == OV { h, c: dec(h, c, d)->Ok_0 });
            lemma_dec_wf(h, c, d);
            lemma_dec_list_wf(s.skip(n), d);
        }
    }
}
/// C17 for the objects the BER parsers return
pub proof fn thm_parse_rt(s: Seq<u8>, d: nat, r: Seq<u8>)
    requires pany(s, d) is Ok, plain(pany(s, d)->Ok_1.c), enc(pany(s, d)->Ok_1).len() <= usize::MAX
    ensures ({ let o = pany(s, d)->Ok_1; let p = pany(enc(o) + r, d); p is Ok && p->Ok_0 == enc(o).len() && strip(p->Ok_1) == strip(o) })
{
    let (h, c) = anyp(s)->Ok_1;
    lemma_dec_wf(h, c, d);
    thm_rt(pany(s, d)->Ok_1, r, d);
}
/// contents octets written for a value of universal type `tag` read back as that type
pub proof fn thm_as_rt(tag: Tag, con: bool, c: CV, d: nat, r: Seq<u8>)
    requires ({ let k = HV { class: Class::Universal, constructed: con, tag, length: Length::Definite(enc_content(c).len() as usize), raw: None }; wfc(k, c, d) }),
        enc_content(c).len() <= max_object_size(),
    ensures ({ let n = enc_content(c).len(); let k = HV { class: Class::Universal, constructed: con, tag, length: Length::Definite(n as usize), raw: None };
        read_as(enc_content(c) + r, tag, Length::Definite(n as usize), con, d) == PR::Ok(n as int, norm_c(k, c)) })
{
    let e = enc_content(c);
    let k = HV { class: Class::Universal, constructed: con, tag, length: Length::Definite(e.len() as usize), raw: None };
    assert((e + r).take(e.len() as int) =~= e);
    lemma_dec_rt(k, c, d);
}
/// C17 for the typed and with-tag parsers
pub proof fn thm_tag_rt(s: Seq<u8>, t: Tag, r: Seq<u8>)
    requires pwith_tag(s, t) is Ok, plain(pwith_tag(s, t)->Ok_1.c), enc_content(pwith_tag(s, t)->Ok_1.c).len() <= max_object_size(), enc(pwith_tag(s, t)->Ok_1).len() <= usize::MAX
    ensures ({ let o = pwith_tag(s, t)->Ok_1; let p = pwith_tag(enc(o) + r, t); p is Ok && p->Ok_0 == enc(o).len() && strip(p->Ok_1) == strip(o) })
{
    let o = pwith_tag(s, t)->Ok_1;
    let (n, h) = (hdr(s, false)->Ok_0, hdr(s, false)->Ok_1);
    let u = HV { class: Class::Universal, constructed: h.constructed, tag: h.tag, length: h.length, raw: None };
    let data = content(s.skip(n), u, 50, true)->Ok_1;
    lemma_dec_wf(u, data, 50);
    let e = enc_content(o.c);
    let k = HV { length: Length::Definite(e.len() as usize), ..u };
    lemma_wf_hdr(OV { h: u, c: o.c }, k, 50);
    let w = enc(o) + r;
    let q = HV { length: Length::Definite(e.len() as usize), ..o.h };
    assert(w =~= enc_hdr(q) + (e + r));
    thm_hdr_rt(q, e + r, false);
    assert(w.skip(enc_hdr(q).len() as int) =~= e + r);
    thm_as_rt(t, o.h.constructed, o.c, 50, r);
    lemma_strip1(OV { h: k, c: o.c }, 50);
    match o.c {
        CV::Sequence(l) => { lemma_strips(l, 49); }
        CV::Set(l) => { lemma_strips(l, 49); }
        _ => {}
    }
}
/// C17, tagged: the tag parsers see the encoded contents under the given tag and class
pub proof fn thm_tagged_rt(class: Class, con: bool, tag: Tag, e: Seq<u8>, r: Seq<u8>, der: bool)
    requires e.len() <= usize::MAX
    ensures ({ let w = enc_tag(class, con, tag) + enc_len(Length::Definite(e.len() as usize)) + e; let f = frame(w + r, der);
        f is Ok && f->Ok_0 == w.len() && f->Ok_1.1 == e && f->Ok_1.0 == (HV { class, constructed: con, tag, length: Length::Definite(e.len() as usize), raw: Some(enc_tag(class, con, tag)) })
        && chk_ok(Chk::Tag(tag), f->Ok_1.0) && (con && class != Class::Universal ==> chk_ok(Chk::Expl(tag), f->Ok_1.0)) })
{
    let h = HV { class, constructed: con, tag, length: Length::Definite(e.len() as usize), raw: None };
    let w = enc_tag(class, con, tag) + enc_len(h.length) + e;
    assert(w + r =~= enc_hdr(h) + (e + r));
    thm_hdr_rt(h, e + r, der);
    assert((w + r).skip(enc_hdr(h).len() as int) =~= e + r);
    assert((e + r).take(e.len() as int) =~= e);
}
/// the contents octets written for a value read by DER meet the DER restrictions again
pub proof fn lemma_der_as_rt(s: Seq<u8>, tag: Tag, len: Length, con: bool, d: nat, r: Seq<u8>)
    requires der_as(s, tag, len, con, d) is Ok, plain(der_as(s, tag, len, con, d)->Ok_1), enc_content(der_as(s, tag, len, con, d)->Ok_1).len() <= max_object_size()
    ensures ({ let c = der_as(s, tag, len, con, d)->Ok_1; let n = enc_content(c).len();
        let k = HV { class: Class::Universal, constructed: con, tag, length: Length::Definite(n as usize), raw: None };
        wfc(k, c, d) && der_as(enc_content(c) + r, tag, Length::Definite(n as usize), con, d) == PR::Ok(n as int, norm_c(k, c)) })
{
    thm_der_as(s, tag, len, con, d);
    let c = der_as(s, tag, len, con, d)->Ok_1;
    let u = HV { class: Class::Universal, constructed: con, tag, length: len, raw: None };
    let data = content(s, u, d, true)->Ok_1;
    lemma_dec_wf(u, data, d);
    let e = enc_content(c);
    let k = HV { length: Length::Definite(e.len() as usize), ..u };
    lemma_wf_hdr(OV { h: u, c }, k, d);
    thm_as_rt(tag, con, c, d, r);
    let l = len->Definite_0 as int;
    assert((e + r).take(e.len() as int) =~= e);
    if tag == Tag::BitString {
        assert(e =~= s.take(l));
        assert((e + r).subrange(1, l) =~= s.subrange(1, l));
    }
}
/// C17 for the objects the DER parsers return
pub proof fn thm_der_rt(s: Seq<u8>, d: nat, r: Seq<u8>)
    requires pder(s, d) is Ok, plain(pder(s, d)->Ok_1.c), enc_content(pder(s, d)->Ok_1.c).len() <= max_object_size()
    ensures ({ let o = pder(s, d)->Ok_1; let p = pder(enc(o) + r, d); p is Ok && p->Ok_0 == enc(o).len() && strip(p->Ok_1) == strip(o) })
{
    let o = pder(s, d)->Ok_1;
    lemma_hdr(s, true);
    let (n, h) = (hdr(s, true)->Ok_0, hdr(s, true)->Ok_1);
    let e = enc_content(o.c);
    let w = enc(o) + r;
    let q = HV { length: Length::Definite(e.len() as usize), ..o.h };
    assert(w =~= enc_hdr(q) + (e + r));
    thm_hdr_rt(q, e + r, true);
    assert(w.skip(enc_hdr(q).len() as int) =~= e + r);
    assert((e + r).take(e.len() as int) =~= e);
    if h.class == Class::Universal {
        lemma_der_as_rt(s.skip(n), h.tag, h.length, h.constructed, d, r);
        let k = HV { class: Class::Universal, constructed: h.constructed, tag: h.tag, length: Length::Definite(e.len() as usize), raw: None };
        lemma_strip1(OV { h: k, c: o.c }, d);
        match o.c {
            CV::Sequence(l) => { lemma_strips(l, (d - 1) as nat); }
            CV::Set(l) => { lemma_strips(l, (d - 1) as nat); }
            _ => {}
        }
    } else { lemma_skip(s.skip(n), h, d, true); }
}
pub proof fn thm_der_tag_rt(s: Seq<u8>, t: Tag, r: Seq<u8>)
    requires pder_tag(s, t) is Ok, plain(pder_tag(s, t)->Ok_1.c), enc_content(pder_tag(s, t)->Ok_1.c).len() <= max_object_size()
    ensures ({ let o = pder_tag(s, t)->Ok_1; let p = pder_tag(enc(o) + r, t); p is Ok && p->Ok_0 == enc(o).len() && strip(p->Ok_1) == strip(o) })
{
    let o = pder_tag(s, t)->Ok_1;
    let (n, h) = (hdr(s, true)->Ok_0, hdr(s, true)->Ok_1);
    let e = enc_content(o.c);
    let w = enc(o) + r;
    let q = HV { length: Length::Definite(e.len() as usize), ..o.h };
    assert(w =~= enc_hdr(q) + (e + r));
    thm_hdr_rt(q, e + r, true);
    assert(w.skip(enc_hdr(q).len() as int) =~= e + r);
    lemma_der_as_rt(s.skip(n), h.tag, h.length, h.constructed, 50, r);
    let k = HV { class: Class::Universal, constructed: h.constructed, tag: h.tag, length: Length::Definite(e.len() as usize), raw: None };
    match o.c {
        CV::Sequence(l) => { lemma_strips(l, 49); }
        CV::Set(l) => { lemma_strips(l, 49); }
        _ => {}
    }
}
} // verus!
}
