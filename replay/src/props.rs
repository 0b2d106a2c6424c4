//! Per property: the comparison of the real, compiled library with the oracle on one case.
use crate::conv::{self, any, class_n, class_of, res};
use crate::gen::*;
use crate::oracle::*;
use der_parser::{parse_ber, parse_der};
use asn1_rs::{Any, Class, Header, Length, Oid, Tag};
use der_parser::ber::*;
use der_parser::der::*;
use der_parser::error::*;
use nom::IResult;
use std::convert::TryFrom;

pub type V = Result<bool, String>; // Ok(non-trivial?)
type P = for<'a> fn(&'a [u8]) -> BerResult<'a>;

macro_rules! eq { ($name:expr, $got:expr, $want:expr) => {{ let (g, w) = ($got, $want); if g != w { return Err(format!("{}: got {:?}, expected {:?}", $name, g, w)); } }}; }
macro_rules! rq { ($name:expr, $s:expr, $call:expr, $f:expr, $want:expr) => {{
    let g = res($s, $call, $f).map_err(|e| format!("{}: {}", $name, e))?; let w = $want;
    if g != w { return Err(format!("{}: got {:?}, expected {:?}", $name, g, w)); } }}; }
fn ob(x: BerObject) -> O { conv::o(&x) }

pub const BER: [(&str, u32, P); 25] = [
    ("parse_ber_endofcontent", 0, parse_ber_endofcontent), ("parse_ber_bool", 1, parse_ber_bool), ("parse_ber_integer", 2, parse_ber_integer),
    ("parse_ber_bitstring", 3, parse_ber_bitstring), ("parse_ber_octetstring", 4, parse_ber_octetstring), ("parse_ber_null", 5, parse_ber_null),
    ("parse_ber_oid", 6, parse_ber_oid), ("parse_ber_enum", 10, parse_ber_enum), ("parse_ber_utf8string", 12, parse_ber_utf8string),
    ("parse_ber_relative_oid", 13, parse_ber_relative_oid), ("parse_ber_sequence", 16, parse_ber_sequence), ("parse_ber_set", 17, parse_ber_set),
    ("parse_ber_numericstring", 18, parse_ber_numericstring), ("parse_ber_visiblestring", 26, parse_ber_visiblestring),
    ("parse_ber_printablestring", 19, parse_ber_printablestring), ("parse_ber_t61string", 20, parse_ber_t61string),
    ("parse_ber_videotexstring", 21, parse_ber_videotexstring), ("parse_ber_ia5string", 22, parse_ber_ia5string), ("parse_ber_utctime", 23, parse_ber_utctime),
    ("parse_ber_generalizedtime", 24, parse_ber_generalizedtime), ("parse_ber_objectdescriptor", 7, parse_ber_objectdescriptor),
    ("parse_ber_graphicstring", 25, parse_ber_graphicstring), ("parse_ber_generalstring", 27, parse_ber_generalstring),
    ("parse_ber_bmpstring", 30, parse_ber_bmpstring), ("parse_ber_universalstring", 28, parse_ber_universalstring)];
pub const DER: [(&str, u32, P); 25] = [
    ("parse_der_endofcontent", 0, parse_der_endofcontent), ("parse_der_bool", 1, parse_der_bool), ("parse_der_integer", 2, parse_der_integer),
    ("parse_der_bitstring", 3, parse_der_bitstring), ("parse_der_octetstring", 4, parse_der_octetstring), ("parse_der_null", 5, parse_der_null),
    ("parse_der_oid", 6, parse_der_oid), ("parse_der_enum", 10, parse_der_enum), ("parse_der_utf8string", 12, parse_der_utf8string),
    ("parse_der_relative_oid", 13, parse_der_relative_oid), ("parse_der_sequence", 16, parse_der_sequence), ("parse_der_set", 17, parse_der_set),
    ("parse_der_numericstring", 18, parse_der_numericstring), ("parse_der_visiblestring", 26, parse_der_visiblestring),
    ("parse_der_printablestring", 19, parse_der_printablestring), ("parse_der_t61string", 20, parse_der_t61string),
    ("parse_der_videotexstring", 21, parse_der_videotexstring), ("parse_der_ia5string", 22, parse_der_ia5string), ("parse_der_utctime", 23, parse_der_utctime),
    ("parse_der_generalizedtime", 24, parse_der_generalizedtime), ("parse_der_objectdescriptor", 7, parse_der_objectdescriptor),
    ("parse_der_graphicstring", 25, parse_der_graphicstring), ("parse_der_generalstring", 27, parse_der_generalstring),
    ("parse_der_bmpstring", 30, parse_der_bmpstring), ("parse_der_universalstring", 28, parse_der_universalstring)];

/// tags worth asking for on this input: the one it carries, and a few others
fn tags_for(s: &[u8], r: &mut Rng) -> Vec<u32> {
    let mut v = vec![*r.pick(&TAGS), r.n(200) as u32];
    if let R::Ok(_, h) = hdr(s, false) { v.push(h.tag); v.push(h.tag.wrapping_add(1)); v.push(h.tag ^ 0x20); }
    v
}
fn hd(s: &[u8]) -> Option<(usize, H)> { hdr(s, false).ok() }
fn len_of(h: &H) -> Length { match h.len { Some(l) => Length::Definite(l), None => Length::Indefinite } }

// ---------------------------------------------------------------- C01 framing
pub fn c01(s: &[u8], r: &mut Rng) -> V {
    rq!("ber_read_element_header", s, ber_read_element_header(s), |h| conv::h(&h), hdr(s, false));
    rq!("der_read_element_header", s, der_read_element_header(s), |h| conv::h(&h), hdr(s, true));
    rq!("parse_ber_any", s, parse_ber_any(s), |a| any(&a), element(s, false).map(|(h, c)| (h, c.to_vec())));
    rq!("parse_ber (consumed)", s, parse_ber(s), |o| conv::h(&o.header), parse_ber_o(s).map(|o| o.h));
    rq!("parse_der (consumed)", s, parse_der(s), |o| conv::h(&o.header), parse_der_o(s).map(|o| o.h));
    rq!("parse_ber_container", s, parse_ber_container::<_, _, BerError>(|c, h| Ok((&b""[..], (conv::h(&h), c.to_vec()))))(s), |v| v, container(s, false).map(|(h, c)| (h, c.to_vec())));
    rq!("parse_der_container", s, parse_der_container::<_, _, BerError>(|c, h| Ok((&b""[..], (conv::h(&h), c.to_vec()))))(s), |v| v, container(s, true).map(|(h, c)| (h, c.to_vec())));
    for t in tags_for(s, r) {
        rq!("parse_ber_with_tag (consumed)", s, parse_ber_with_tag(s, Tag(t)), |o| conv::h(&o.header), ber_tag(s, t).map(|o| o.h));
        rq!("parse_der_with_tag (consumed)", s, parse_der_with_tag(s, Tag(t)), |o| conv::h(&o.header), der_tag(s, t).map(|o| o.h));
    }
    if let Some((n, h)) = hd(s) {
        let t = &s[n..];
        for tag in [4u32, 16, 29] {
            let h2 = H { class: 2, ..h.clone() };
            rq!("der_read_element_content (class 2)", t, der_read_element_content(t, conv::header(&h2)), ob, der_content(t, H { raw: None, ..h2.clone() }));
            rq!("ber_read_element_content_as", t, ber_read_element_content_as(t, Tag(tag), len_of(&h), h.cons, 50), |c| conv::c(&c), read_as(t, tag, h.len, h.cons, 50));
        }
        return Ok(true);
    }
    Ok(false)
}
fn parse_ber_o(s: &[u8]) -> R<O> { crate::oracle::parse_ber(s, 50) }
fn parse_der_o(s: &[u8]) -> R<O> { crate::oracle::parse_der(s, 50) }

// ---------------------------------------------------------------- C02 depth
pub fn c02(s: &[u8], r: &mut Rng) -> V {
    let mut nt = false;
    rq!("parse_ber", s, parse_ber(s), ob, parse_ber_o(s));
    rq!("parse_der", s, parse_der(s), ob, parse_der_o(s));
    let mut ds = vec![0usize, 1, 2, 3, 49, 50, 51];
    for _ in 0..3 { ds.push(r.n(60)); }
    let ls = levels(s);
    for k in 0..3 { ds.push((ls + k).saturating_sub(1)); }
    for d in ds {
        let w = crate::oracle::parse_ber(s, d);
        nt |= matches!(w, R::Err(K::MaxDepth)) || w.is_ok();
        rq!(format!("parse_ber_recursive({})", d), s, parse_ber_recursive(s, d), ob, w.clone());
        rq!(format!("parse_ber_any_r({})", d), s, parse_ber_any_r(s, d), ob, w.clone());
        rq!(format!("parse_der_recursive({})", d), s, parse_der_recursive(s, d), ob, crate::oracle::parse_der(s, d));
        if let Some((n, h)) = hd(s) {
            let w = match w { R::Ok(n, o) if o.h.tag != h.tag => R::Ok(n, o), w => w };
            rq!(format!("parse_ber_any_with_tag_r({})", d), s, parse_ber_any_with_tag_r(s, Tag(h.tag), d), ob, w);
            let t = &s[n..];
            for tag in [h.tag, 16, 17, 4] {
                rq!(format!("ber_read_element_content_as({},{})", tag, d), t, ber_read_element_content_as(t, Tag(tag), len_of(&h), h.cons, d), |c| conv::c(&c), read_as(t, tag, h.len, h.cons, d));
                rq!(format!("der_read_element_content_as({},{})", tag, d), t, der_read_element_content_as(t, Tag(tag), len_of(&h), h.cons, d), |c| conv::c(&c), der_as(t, tag, h.len, h.cons, d));
            }
            rq!("der_read_element_content", t, der_read_element_content(t, conv::header(&h)), ob, der_content(t, H { raw: None, ..h.clone() }));
        }
    }
    for (n, t, f) in BER.iter().filter(|x| x.1 == 16 || x.1 == 17 || x.1 == 4) { rq!(n, s, f(s), ob, ber_tag(s, *t)); }
    for (n, t, f) in DER.iter().filter(|x| x.1 == 16 || x.1 == 17 || x.1 == 4) { rq!(n, s, f(s), ob, der_tag(s, *t)); }
    Ok(nt)
}
fn levels(s: &[u8]) -> usize {
    let mut t = s; let mut n = 0;
    while let R::Ok(k, h) = hdr(t, false) { if !h.cons { break; } n += 1; t = &t[k..]; }
    n
}

// ---------------------------------------------------------------- C03 totality
pub fn c03(s: &[u8], r: &mut Rng) -> V {
    let mut objs = vec![];
    let _ = ber_read_element_header(s); let _ = der_read_element_header(s); let _ = parse_ber_any(s);
    if let Ok((_, o)) = parse_ber(s) { objs.push(o); }
    if let Ok((_, o)) = parse_der(s) { objs.push(o); }
    let d = *r.pick(&[0usize, 1, 2, 50, 60, 1000, usize::MAX]);
    // the depth argument bounds the recursion: only ask for huge depths on inputs whose nesting cannot exhaust the stack
    let d = if s.len() > 2000 { d.min(50) } else { d };
    let _ = parse_ber_recursive(s, d); let _ = parse_der_recursive(s, d); let _ = parse_ber_any_r(s, d); let _ = parse_ber_any_with_tag_r(s, Tag(r.n(31) as u32), d);
    for (_, _, f) in BER.iter().chain(DER.iter()) { if let Ok((_, o)) = f(s) { objs.push(o); } }
    let _ = (parse_ber_i32(s), parse_ber_i64(s), parse_ber_u32(s), parse_ber_u64(s), parse_der_i32(s), parse_der_i64(s), parse_der_u32(s), parse_der_u64(s));
    for t in tags_for(s, r) {
        let _ = (parse_ber_with_tag(s, Tag(t)), parse_der_with_tag(s, Tag(t)), parse_ber_slice(s, Tag(t)), parse_der_slice(s, Tag(t)));
        let _ = (parse_ber_tagged_explicit(t, parse_ber)(s), parse_der_tagged_explicit(t, parse_der)(s));
        for u in [1u32, 2, 3, 4, 10, 12, 16, 23, 30] {
            let _ = (parse_ber_tagged_implicit(t, parse_ber_content(Tag(u)))(s), parse_der_tagged_implicit(t, parse_der_content(Tag(u)))(s));
            let _ = (parse_ber_implicit(s, t, parse_ber_content(Tag(u))), parse_der_implicit(s, t, parse_der_content(Tag(u))));
        }
        if let Ok((_, o)) = parse_ber_explicit_optional(s, Tag(t), parse_ber) { objs.push(o); }
        if let Ok((_, o)) = parse_der_explicit_optional(s, Tag(t), parse_der) { objs.push(o); }
        for l in [Length::Indefinite, Length::Definite(0), Length::Definite(1), Length::Definite(s.len()), Length::Definite(s.len() + 1), Length::Definite(s.len().saturating_sub(1)), Length::Definite(usize::MAX)] { for c in [false, true] { for dd in [0usize, 1, 2, 50] {
            if let Ok((_, c)) = ber_read_element_content_as(s, Tag(t), l, c, dd) { if dd == 50 { objs.push(BerObject::from_obj(c)); } }
            let _ = der_read_element_content_as(s, Tag(t), l, c, dd);
            let _ = der_read_element_content(s, Header::new(class_of((t % 4) as u8), c, Tag(t), l));
        } } }
    }
    for h in [parse_ber_sequence_of(parse_ber)(s), parse_ber_set_of(parse_ber_integer)(s), parse_der_sequence_of(parse_der)(s), parse_der_set_of(parse_der_integer)(s)] { if let Ok((_, o)) = h { objs.push(o); } }
    if let Ok((_, a)) = parse_ber_any(s) { if let Ok(o) = BerObject::try_from(a.clone()) { objs.push(o); } let _ = BerObject::try_from(&a); }
    let nt = !objs.is_empty();
    objs.truncate(24);
    for o in &objs {
        let _ = (o.as_i64(), o.as_i32(), o.as_u64(), o.as_u32(), o.as_bool(), o.as_oid(), o.as_oid_val(), o.as_optional(), o.as_tagged());
        let _ = (o.as_bitstring(), o.as_bitstring_ref(), o.as_bitslice(), o.as_sequence(), o.as_set(), o.as_slice(), o.as_str(), o.as_bigint(), o.as_biguint());
        if let Ok(b) = o.as_bitstring() { for k in [0usize, 1, 7, 8, 63, 64, 1000, usize::MAX - 1, usize::MAX] { let _ = b.is_set(k); } }
        let _ = o.to_vec();
        if s.len() < 3000 {
            let _ = format!("{:?}", o.as_pretty(r.n(9), r.n(5)));
            let mut p = o.as_pretty(0, 2); p.set_flag(PrettyPrinterFlag::ShowHeader); let _ = format!("{:?}", p);
            p.unset_flag(PrettyPrinterFlag::Recursive); let _ = format!("{:?}", p);
        }
        let _ = o.ref_iter().count(); let _ = o.clone().into_iter().take(1000).count();
        let _ = o.ref_iter().map(|x| x.tag().0 as u64).sum::<u64>();
        let mut rec = Rec::default(); rec.only_count = true; Visit::run(&mut rec, unsafe { std::mem::transmute::<&BerObject, &BerObject>(o) });
    }
    if s.is_empty() {
        let o = gen_o(r, 3, true);
        let b = conv::obj(&o);
        let _ = (b.to_vec(), format!("{:?}", b.as_pretty(2, 2)), b.as_u64(), b.as_u32(), b.as_i64(), b.as_i32(), b.as_bigint(), b.as_biguint(), b.as_bitslice());
        if let C::Bits(_, d) = &o.c { let c = BerObjectContent::BitString(r.next() as u8, BitStringObject { data: d }); let _ = (c.as_u64(), c.as_u32()); }
        let h = gen_h(r);
        let _ = cookie_factory::gen_simple(ber_encode_header(&conv::header(&h)), Vec::new());
        let _ = cookie_factory::gen_simple(ber_encode_tagged_explicit(Tag(h.tag), class_of(h.class), &b), Vec::new());
        let _ = cookie_factory::gen_simple(ber_encode_tagged_implicit(Tag(h.tag), class_of(h.class), &b), Vec::new());
        return Ok(true);
    }
    Ok(nt)
}

// ---------------------------------------------------------------- C04 truncation and extension
/// k lies inside the identifier octets of a multi-byte tag that has to be read before the end of s is known
fn in_high_tag(s: &[u8], k: usize) -> bool {
    fn walk(s: &[u8], base: usize, k: usize, d: usize, first: bool) -> Option<(usize, bool)> {
        // returns (consumed, eoc); None when a cut inside a tag was met
        let (n, h) = match hdr(s, false) { R::Ok(n, h) => (n, h), _ => return Some((0, true)) };
        let tl = h.raw.as_ref().map(|r| r.len()).unwrap_or(1);
        if k > base && k < base + tl { return None; }
        let _ = first;
        match h.len {
            Some(l) => Some((n.saturating_add(l), h.tag == 0 && l == 0 && h.class == 0 && !h.cons)),
            None => { let mut p = n; if d == 0 { return Some((p, true)); } loop { if p > s.len() { return Some((p, true)); } match walk(&s[p..], base + p, k, d - 1, false)? { (m, e) => { if m == 0 { return Some((p, true)); } p = p.saturating_add(m); if e { return Some((p, false)); } } } } }
        }
    }
    walk(s, 0, k, 60, true).is_none()
}
fn stable(name: &str, s: &[u8], f: &dyn for<'a> Fn(&'a [u8]) -> Result<(&'a [u8], String), nom::Err<BerError>>, r: &mut Rng) -> V {
    let (n, v) = match f(s) { Ok((rem, v)) => (s.len() - rem.len(), v), _ => return Ok(false) };
    let mut exts: Vec<Vec<u8>> = vec![s[..n].to_vec(), { let mut x = s[..n].to_vec(); x.extend([0, 0]); x }];
    { let mut x = s[..n].to_vec(); x.extend(r.bytes(6)); exts.push(x); }
    for x in exts {
        match f(&x) { Ok((rem, w)) if w == v && x.len() - rem.len() == n && rem == &x[n..] => {} other => return Err(format!("{}: accepts {:02x?} but on the same bytes followed by {:02x?} gives {:?}", name, &s[..n], &x[n..], other.map(|(a, b)| (a.len(), b)))) }
    }
    let step = 1 + n / 64;
    for k in (0..n).step_by(step).chain(n.saturating_sub(3)..n) {
        if in_high_tag(s, k) { continue; }
        match f(&s[..k]) { Err(nom::Err::Incomplete(_)) => {} other => return Err(format!("{}: accepts {:02x?}; truncated to {} bytes it gives {:?} instead of Incomplete", name, &s[..n], k, other.map(|(a, b)| (a.len(), b)))) }
    }
    Ok(true)
}
pub fn c04(s: &[u8], r: &mut Rng) -> V {
    let mut nt = false;
    macro_rules! st { ($n:expr, $f:expr) => { nt |= stable($n, s, &|i| { $f(i).map(|(a, b)| (a, format!("{:?}", b))) }, r)?; } }
    st!("ber_read_element_header", ber_read_element_header);
    st!("der_read_element_header", der_read_element_header);
    st!("parse_ber_any", parse_ber_any);
    st!("parse_ber", parse_ber); st!("parse_der", parse_der);
    st!("parse_ber_u32", parse_ber_u32); st!("parse_der_i64", parse_der_i64); st!("parse_ber_i32", parse_ber_i32); st!("parse_der_u64", parse_der_u64);
    for (k, (n, t, f)) in BER.iter().chain(DER.iter()).enumerate() { if hd(s).map_or(false, |(_, h)| h.tag == *t) || (s.len() + k) % 13 == 0 { st!(n, f); } }
    for t in tags_for(s, r) { st!("parse_ber_with_tag", |i| parse_ber_with_tag(i, Tag(t))); st!("parse_der_with_tag", |i| parse_der_with_tag(i, Tag(t))); }
    Ok(nt)
}

// ---------------------------------------------------------------- C05 DER
pub fn c05(s: &[u8], r: &mut Rng) -> V {
    let w = parse_der_o(s);
    let nt = w.is_ok() || element(s, false).is_ok();
    rq!("parse_der", s, der_parser::parse_der(s), ob, w);
    for (n, t, f) in DER.iter() { if hd(s).map_or(true, |(_, h)| h.tag == *t) { rq!(n, s, f(s), ob, der_tag(s, *t)); } }
    if let Some((n, h)) = hd(s) {
        let t = &s[n..];
        rq!("der_read_element_content", t, der_read_element_content(t, conv::header(&h)), ob, der_content(t, H { raw: None, ..h.clone() }));
        let mut ts = tags_for(s, r); ts.extend([1, 2, 3, 23]);
        for tag in ts {
            let hh = conv::header(&h);
            rq!(format!("der_read_element_content_as({})", tag), t, der_read_element_content_as(t, Tag(tag), len_of(&h), h.cons, 50), |c| conv::c(&c), der_as(t, tag, h.len, h.cons, 50));
            rq!(format!("parse_der_content({})", tag), t, parse_der_content(Tag(tag))(t, &hh, 50), |c| conv::c(&c), der_as(t, tag, h.len, h.cons, 50));
            rq!(format!("parse_der_content2({})", tag), t, parse_der_content2(Tag(tag))(t, hh.clone(), 50), |c| conv::c(&c), der_as(t, tag, h.len, h.cons, 50));
        }
    }
    rq!("parse_der_i32", s, parse_der_i32(s), |v| v as i128, int_parse(s, true, 32, true));
    rq!("parse_der_u64", s, parse_der_u64(s), |v| v as i128, int_parse(s, true, 64, false));
    rq!("parse_der_container", s, parse_der_container::<_, _, BerError>(|c, _| Ok((&b""[..], c.to_vec())))(s), |v| v, container(s, true).map(|(_, c)| c.to_vec()));
    Ok(nt)
}

// ---------------------------------------------------------------- C06 typed parsers
pub fn c06(s: &[u8], r: &mut Rng) -> V {
    for (n, t, f) in BER.iter() { rq!(n, s, f(s), ob, ber_tag(s, *t)); }
    for (n, t, f) in DER.iter() { rq!(n, s, f(s), ob, der_tag(s, *t)); }
    for t in tags_for(s, r) {
        rq!(format!("parse_ber_with_tag({})", t), s, parse_ber_with_tag(s, t), ob, ber_tag(s, t));
        rq!(format!("parse_der_with_tag({})", t), s, parse_der_with_tag(s, t), ob, der_tag(s, t));
        let want = |der| match container(s, der) { R::Ok(n, (h, c)) => if h.tag == t { R::Ok(n, c.to_vec()) } else { R::Err(K::Other) }, e => e.err() };
        rq!(format!("parse_ber_slice({})", t), s, parse_ber_slice(s, t), |c| c.to_vec(), want(false));
        rq!(format!("parse_der_slice({})", t), s, parse_der_slice(s, Tag(t)), |c| c.to_vec(), want(true));
        let w = match parse_ber_o(s) { R::Ok(n, o) => if o.h.tag == t { R::Ok(n, o) } else { R::Err(K::Other) }, e => match hd(s) { Some((_, h)) if h.tag != t && element(s, false).is_ok() => R::Err(K::Other), _ => e } };
        rq!(format!("parse_ber_any_with_tag_r({})", t), s, parse_ber_any_with_tag_r(s, Tag(t), 50), ob, w);
    }
    Ok(element(s, false).is_ok())
}

// ---------------------------------------------------------------- C07 decode table
pub fn c07(s: &[u8], r: &mut Rng) -> V {
    let w = parse_ber_o(s);
    let nt = w.is_ok();
    rq!("parse_ber", s, der_parser::parse_ber(s), ob, w.clone());
    rq!("parse_ber_recursive", s, parse_ber_recursive(s, 50), ob, w.clone());
    rq!("parse_ber_any_r", s, parse_ber_any_r(s, 50), ob, w);
    if let Some((n, h)) = hd(s) {
        let t = &s[n..];
        let mut ts = tags_for(s, r); ts.extend((0..4).map(|_| r.n(31) as u32));
        for tag in ts {
            let hh = conv::header(&h);
            let w = read_as(t, tag, h.len, h.cons, 50);
            rq!(format!("ber_read_element_content_as({})", tag), t, ber_read_element_content_as(t, Tag(tag), len_of(&h), h.cons, 50), |c| conv::c(&c), w.clone());
            rq!(format!("parse_ber_content({})", tag), t, parse_ber_content(Tag(tag))(t, &hh, 50), |c| conv::c(&c), w.clone());
            rq!(format!("parse_ber_content2({})", tag), t, parse_ber_content2(Tag(tag))(t, hh.clone(), 50), |c| conv::c(&c), w);
        }
    }
    for (n, t, f) in BER.iter() { if hd(s).map_or(false, |(_, h)| h.tag == *t) { rq!(n, s, f(s), ob, ber_tag(s, *t)); } }
    Ok(nt)
}

// ---------------------------------------------------------------- C08 integers
fn kr<T>(r: Result<T, BerError>) -> Result<T, K> { r.map_err(|e| conv::kind(&e)) }
pub fn c08(s: &[u8], r: &mut Rng) -> V {
    use num_bigint::{BigInt, BigUint};
    rq!("parse_ber_i32", s, parse_ber_i32(s), |v| v as i128, int_parse(s, false, 32, true));
    rq!("parse_ber_i64", s, parse_ber_i64(s), |v| v as i128, int_parse(s, false, 64, true));
    rq!("parse_ber_u32", s, parse_ber_u32(s), |v| v as i128, int_parse(s, false, 32, false));
    rq!("parse_ber_u64", s, parse_ber_u64(s), |v| v as i128, int_parse(s, false, 64, false));
    rq!("parse_der_i32", s, parse_der_i32(s), |v| v as i128, int_parse(s, true, 32, true));
    rq!("parse_der_i64", s, parse_der_i64(s), |v| v as i128, int_parse(s, true, 64, true));
    rq!("parse_der_u32", s, parse_der_u32(s), |v| v as i128, int_parse(s, true, 32, false));
    rq!("parse_der_u64", s, parse_der_u64(s), |v| v as i128, int_parse(s, true, 64, false));
    let mut vals: Vec<Vec<u8>> = vec![int_bytes(r), int_bytes(r), s.to_vec()];
    if let Some((n, _)) = hd(s) { vals.push(s[n..].to_vec()); }
    for v in &vals {
        for o in [BerObject::from_int_slice(v), BerObject::from_obj(BerObjectContent::Integer(v))] {
            eq!(format!("as_i64 of {:02x?}", v), kr(o.as_i64()).map(|x| x as i128), int_fit(v, 64, true));
            eq!(format!("as_i32 of {:02x?}", v), kr(o.as_i32()).map(|x| x as i128), int_fit(v, 32, true));
            eq!(format!("as_u64 of {:02x?}", v), kr(o.as_u64()).map(|x| x as i128), int_fit(v, 64, false));
            eq!(format!("as_u32 of {:02x?}", v), kr(o.as_u32()).map(|x| x as i128), int_fit(v, 32, false));
            let mag = BigUint::from_bytes_be(v);
            let neg = v.first().map_or(false, |b| *b >= 0x80);
            let big = if neg { BigInt::from(mag.clone()) - (BigInt::from(1) << (8 * v.len())) } else { BigInt::from(mag.clone()) };
            eq!(format!("as_bigint of {:02x?}", v), o.as_bigint().ok(), Some(big));
            eq!(format!("as_biguint of {:02x?}", v), kr(o.as_biguint()), if neg { Err(K::Negative) } else { Ok(mag) });
            eq!("content.as_i64", kr(o.content.as_i64()).map(|x| x as i128), int_fit(v, 64, true));
            eq!("content.as_u32", kr(o.content.as_u32()).map(|x| x as i128), int_fit(v, 32, false));
        }
        if let Ok(_) = BerObject::from_int_slice(v).as_u64() { eq!("negative as_u64", v.first().map_or(false, |b| *b >= 0x80), false); }
    }
    let e = *r.pick(&[0u64, 1, 0xff, 0xffff_fffe, 0xffff_ffff, 0x1_0000_0000, u64::MAX, 77]);
    let c = BerObjectContent::Enum(e);
    eq!("as_u64 of Enum", kr(c.as_u64()), Ok(e));
    eq!("as_u32 of Enum", kr(c.as_u32()), u32::try_from(e).map_err(|_| K::TooLarge));
    eq!("as_i64 of Enum", kr(c.as_i64()), Err(K::Other));
    let o = gen_o(r, 1, true);
    let b = conv::obj(&o);
    if !matches!(o.c, C::Int(_) | C::Enum(_) | C::Bits(..)) {
        eq!(format!("as_u64/as_u32 of {:?}", o), (kr(b.as_u64()), kr(b.as_u32())), (Err(K::Other), Err(K::Other)));
    }
    if !matches!(o.c, C::Int(_)) {
        eq!(format!("as_i64/as_i32 of {:?}", o), (kr(b.as_i64()), kr(b.as_i32())), (Err(K::Other), Err(K::Other)));
        eq!(format!("as_bigint/as_biguint of {:?}", o), (b.as_bigint().ok(), b.as_biguint().ok()), (None, None));
    }
    Ok(true)
}

// ---------------------------------------------------------------- C09 bit strings
pub fn c09(s: &[u8], r: &mut Rng) -> V {
    let mut cases: Vec<(u8, Vec<u8>)> = vec![(r.n(10) as u8, r.bytes(10)), (r.next() as u8, r.bytes(40)), (r.n(8) as u8, r.bytes(9))];
    if let R::Ok(_, o) = parse_ber_o(s) { if let C::Bits(n, d) = o.c { cases.push((n, d)); } }
    for (n, d) in cases {
        let c = BerObjectContent::BitString(n, BitStringObject { data: &d });
        let o = BerObject::from_obj(c.clone());
        let w = bits_u64(n, &d);
        eq!(format!("as_u64 of BitString({},{:02x?})", n, d), kr(c.as_u64()), w);
        eq!(format!("as_u32 of BitString({},{:02x?})", n, d), kr(c.as_u32()), w.and_then(|x| u32::try_from(x).map_err(|_| K::TooLarge)));
        eq!("BerObject::as_u64", kr(o.as_u64()), w);
        eq!("BerObject::as_u32", kr(o.as_u32()), w.and_then(|x| u32::try_from(x).map_err(|_| K::TooLarge)));
        let b = o.as_bitstring().map_err(|e| format!("as_bitstring: {:?}", e))?;
        for k in (0..8 * d.len() + 20).chain([usize::MAX, usize::MAX - 7, usize::MAX / 8]) {
            let want = k / 8 < d.len() && d[k / 8] & (0x80 >> (k % 8)) != 0;
            eq!(format!("is_set({}) of {:02x?}", k, d), b.is_set(k), want);
        }
        eq!("as_ref", b.as_ref().to_vec(), d.clone());
        eq!("as_slice", o.as_slice().ok().map(|x| x.to_vec()), Some(d.clone()));
        eq!("as_bitstring_ref", o.as_bitstring_ref().ok().map(|x| x.data.to_vec()), Some(d.clone()));
        let want: Vec<bool> = (0..8 * d.len()).map(|k| d[k / 8] & (0x80 >> (k % 8)) != 0).collect();
        eq!("as_bitslice", o.as_bitslice().ok().map(|x| x.iter().map(|b| *b).collect::<Vec<bool>>()), Some(want.clone()));
        eq!("BitStringObject::as_bitslice", b.as_bitslice().map(|x| x.iter().map(|b| *b).collect::<Vec<bool>>()), Some(want));
    }
    Ok(true)
}

// ---------------------------------------------------------------- C10 accessors and constructors
pub fn c10(s: &[u8], r: &mut Rng) -> V {
    let o = match parse_ber_o(s) { R::Ok(_, o) if r.p(1, 2) && !has_time(&o.c) => o, _ => gen_o(r, 2, true) };
    let c = conv::cont(&o.c);
    let b = BerObject::from_header_and_content(conv::header(&o.h), c.clone());
    let n = |x: &str| format!("{} of {:?}", x, o);
    eq!(n("from_header_and_content"), (conv::h(&b.header), conv::c(&b.content)), (H { raw: None, ..o.h.clone() }, conv::c(&c)));
    eq!(n("as_bool"), b.as_bool().ok(), match o.c { C::Bool(x) => Some(x), _ => None });
    let oid = match &o.c { C::Oid(x) => Some((x.clone(), false)), C::RelOid(x) => Some((x.clone(), true)), _ => None };
    eq!(n("as_oid"), b.as_oid().ok().map(|x| x.as_bytes().to_vec()), oid.as_ref().map(|x| x.0.clone()));
    eq!(n("as_oid_val"), b.as_oid_val().ok().map(|x| x.as_bytes().to_vec()), oid.map(|x| x.0));
    eq!(n("as_optional"), b.as_optional().ok().map(|x| x.map(|y| norm(&conv::o(y)))), match &o.c { C::Opt(x) => Some(x.as_ref().map(|y| norm(&conv::o(&conv::obj(y))))), _ => None });
    eq!(n("as_tagged"), b.as_tagged().ok().map(|(c, t, x)| (class_n(c), t.0, norm(&conv::o(x)))), match &o.c { C::Tagged(c, t, x) => Some((*c, *t, norm(&conv::o(&conv::obj(x))))), _ => None });
    eq!(n("as_sequence"), b.as_sequence().ok().map(|v| v.iter().map(conv::o).collect::<Vec<_>>()), match &o.c { C::Seq(v) => Some(v.iter().map(|x| conv::o(&conv::obj(x))).collect()), _ => None });
    eq!(n("as_set"), b.as_set().ok().map(|v| v.iter().map(conv::o).collect::<Vec<_>>()), match &o.c { C::Set(v) => Some(v.iter().map(|x| conv::o(&conv::obj(x))).collect()), _ => None });
    let sl = match &o.c { C::Str(_, x) | C::Int(x) | C::Bits(_, x) | C::Oct(x) | C::Bmp(x) | C::Univ(x) | C::Unk(_, x) => Some(x.clone()), _ => None };
    eq!(n("as_slice"), b.as_slice().ok().map(|x| x.to_vec()), sl.clone());
    eq!(n("as_bitstring"), b.as_bitstring().ok().map(|x| x.data.to_vec()), match &o.c { C::Bits(_, x) => Some(x.clone()), _ => None });
    eq!(n("as_bitstring_ref"), b.as_bitstring_ref().ok().map(|x| x.data.to_vec()), match &o.c { C::Bits(_, x) => Some(x.clone()), _ => None });
    eq!(n("as_bitslice"), b.as_bitslice().ok().map(|x| x.len()), sl.map(|x| 8 * x.len()));
    eq!(n("as_str"), b.as_str().ok().map(|x| x.as_bytes().to_vec()), match &o.c { C::Str(_, x) => Some(x.clone()), _ => None });
    eq!(n("content accessors"), (c.as_bool().ok(), c.as_str().ok(), c.as_slice().ok().map(|x| x.to_vec()), c.as_oid().ok().map(|x| x.as_bytes().to_vec())), (b.as_bool().ok(), b.as_str().ok(), b.as_slice().ok().map(|x| x.to_vec()), b.as_oid().ok().map(|x| x.as_bytes().to_vec())));
    let h = &o.h;
    eq!(n("class/tag/length"), (class_n(b.class()), b.tag().0, b.length() == len_of(h)), (h.class, h.tag, true));
    eq!(n("is_<class>"), (b.is_universal(), b.is_application(), b.is_contextspecific(), b.is_private()), (h.class == 0, h.class == 1, h.class == 2, h.class == 3));
    eq!(n("is_primitive/is_constructed"), (b.is_primitive(), b.is_constructed()), (!h.cons, h.cons));
    for k in 0..4u8 { eq!(n("assert_class"), b.assert_class(class_of(k)).is_ok(), k == h.class); }
    for t in [h.tag, h.tag ^ 1, h.tag.wrapping_add(32), 0, 16] { eq!(n("assert_tag"), b.assert_tag(Tag(t)).is_ok(), t == h.tag); }
    eq!(n("assert_constructed/primitive"), (b.assert_constructed().is_ok(), b.assert_primitive().is_ok()), (h.cons, !h.cons));
    // constructors
    let t = content_tag(&o.c);
    let want = H { class: 0, cons: t == 16 || t == 17, tag: t, len: Some(0), raw: None };
    for (nm, f) in [("from_obj", BerObject::from_obj(c.clone())), ("From<BerObjectContent>", BerObject::from(c.clone()))] { eq!(n(nm), (conv::h(&f.header), conv::c(&f.content)), (want.clone(), conv::c(&c))); }
    if let BerObjectContent::Sequence(l) | BerObjectContent::Set(l) = &c {
        let (a, z) = (BerObject::from_seq(l.clone()), BerObject::from_set(l.clone()));
        eq!(n("from_seq"), (conv::h(&a.header), a.content == BerObjectContent::Sequence(l.clone())), (H { class: 0, cons: true, tag: 16, len: Some(0), raw: None }, true));
        eq!(n("from_set"), (conv::h(&z.header), z.content == BerObjectContent::Set(l.clone())), (H { class: 0, cons: true, tag: 17, len: Some(0), raw: None }, true));
    }
    if let BerObjectContent::Integer(i) = &c { let a = BerObject::from_int_slice(i); eq!(n("from_int_slice"), conv::o(&a), O { h: H { class: 0, cons: false, tag: 2, len: Some(0), raw: None }, c: C::Int(i.to_vec()) }); }
    if let BerObjectContent::OID(i) = &c { let a = BerObject::from(i.clone()); eq!(n("From<Oid>"), conv::o(&a), O { h: H { class: 0, cons: false, tag: 6, len: Some(0), raw: None }, c: C::Oid(i.as_bytes().to_vec()) }); }
    let raw = r.bytes(3);
    let a = b.clone().set_raw_tag(Some(&raw)); eq!(n("set_raw_tag"), conv::o(&a), O { h: H { raw: Some(raw.clone()), ..conv::h(&b.header) }, c: conv::c(&c) });
    let a = a.set_raw_tag(None); eq!(n("set_raw_tag(None)"), conv::o(&a), O { h: H { raw: None, ..conv::h(&b.header) }, c: conv::c(&c) });
    // TryFrom<Any>
    if let Ok((_, a)) = parse_ber_any(s) {
        let hh = conv::h(&a.header);
        let want = read_as(a.data, hh.tag, hh.len, hh.cons, 50).ok().map(|(_, c)| O { h: hh, c });
        eq!("TryFrom<Any>", BerObject::try_from(a.clone()).ok().map(|o| conv::o(&o)), want.clone());
        eq!("TryFrom<&Any>", BerObject::try_from(&a).ok().map(|o| conv::o(&o)), want);
    }
    Ok(true)
}
fn has_time(c: &C) -> bool { match c { C::Utc(_) | C::Gen(_) => true, C::Seq(l) | C::Set(l) => l.iter().any(|o| has_time(&o.c)), C::Opt(Some(o)) | C::Tagged(_, _, o) => has_time(&o.c), _ => false } }

// ---------------------------------------------------------------- callbacks
#[derive(Debug, PartialEq, Clone)]
pub struct MyErr(K);
impl From<BerError> for MyErr { fn from(e: BerError) -> Self { MyErr(conv::kind(&e)) } }
impl<I> nom::error::ParseError<I> for MyErr { fn from_error_kind(_: I, _: nom::error::ErrorKind) -> Self { MyErr(K::Other) } fn append(_: I, _: nom::error::ErrorKind, o: Self) -> Self { o } }
fn mres<'a, T, U>(s: &[u8], r: IResult<&'a [u8], T, MyErr>, f: impl FnOnce(T) -> U) -> Result<R<U>, String> {
    match r { Err(nom::Err::Error(MyErr(k))) => Ok(R::Err(k)), Err(nom::Err::Failure(MyErr(k))) => Ok(R::Fail(k)), Err(nom::Err::Incomplete(_)) => Ok(R::Inc),
        Ok((rem, v)) => { if rem.len() > s.len() || rem != &s[s.len() - rem.len()..] { Err("remainder is not the tail of the input".into()) } else { Ok(R::Ok(s.len() - rem.len(), f(v))) } } }
}
/// element parsers given to the combinators, with their oracle
#[derive(Clone, Copy, Debug)]
pub enum F { Ber, Der, Ty(usize, bool), Zero, Fail(u8), Two }
pub fn pick_f(r: &mut Rng) -> F { match r.n(12) { 0..=3 => F::Ber, 4 | 5 => F::Der, 6 | 7 => F::Ty(r.n(25), r.p(1, 2)), 8 => F::Ty(2, r.p(1, 2)), 9 => F::Zero, 10 => F::Two, _ => F::Fail(r.n(3) as u8) } }
pub fn call<'a>(f: F, i: &'a [u8]) -> BerResult<'a> {
    match f {
        F::Ber => parse_ber(i), F::Der => parse_der(i), F::Ty(k, false) => (BER[k].2)(i), F::Ty(k, true) => (DER[k].2)(i),
        F::Zero => Ok((i, BerObject::from_obj(BerObjectContent::Null))),
        F::Two => if i.len() < 2 { Err(nom::Err::Incomplete(nom::Needed::new(2))) } else { Ok((&i[2..], BerObject::from_int_slice(&i[..2]))) },
        F::Fail(0) => Err(nom::Err::Error(BerError::BerValueError)), F::Fail(1) => Err(nom::Err::Failure(BerError::BerMaxDepth)), F::Fail(_) => Err(nom::Err::Incomplete(nom::Needed::Unknown)),
    }
}
fn plain(t: u32, c: C) -> O { O { h: H { class: 0, cons: false, tag: t, len: Some(0), raw: None }, c } }
pub fn orac(f: F, i: &[u8]) -> R<O> {
    match f {
        F::Ber => parse_ber_o(i), F::Der => parse_der_o(i), F::Ty(k, false) => ber_tag(i, BER[k].1), F::Ty(k, true) => der_tag(i, DER[k].1),
        F::Zero => R::Ok(0, plain(5, C::Null)), F::Two => if i.len() < 2 { R::Inc } else { R::Ok(2, plain(2, C::Int(i[..2].to_vec()))) },
        F::Fail(0) => R::Err(K::Other), F::Fail(1) => R::Fail(K::MaxDepth), F::Fail(_) => R::Inc,
    }
}
fn list_of(f: F, c: &[u8]) -> R<Vec<O>> {
    let (mut p, mut v) = (0, vec![]);
    loop {
        match orac(f, &c[p..]) {
            R::Ok(0, _) => return R::Err(K::Other),
            R::Ok(n, o) => { p += n; v.push(o); }
            R::Inc => break,
            R::Err(k) | R::Fail(k) => return R::Fail(k),
        }
    }
    if p < c.len() { R::Err(K::Other) } else { R::Ok(c.len(), v) }
}
fn wrap_c<T>(s: &[u8], der: bool, want: Option<u32>, f: impl FnOnce(&[u8], &H) -> R<T>) -> R<(H, T)> {
    match container(s, der) {
        R::Ok(n, (h, c)) => { if want.map_or(false, |t| t != h.tag) { return R::Err(K::Other); } match f(c, &h) { R::Ok(_, v) => R::Ok(n, (h, v)), e => e.err() } }
        e => e.err(),
    }
}
fn cons_h(t: u32) -> H { H { class: 0, cons: true, tag: t, len: Some(0), raw: None } }
/// make inputs likely to be accepted by a container / tagged parser
pub fn shape(s: &[u8], r: &mut Rng, seq: bool) -> Vec<u8> {
    if r.p(1, 3) { return s.to_vec(); }
    let mut c = vec![];
    let k = r.n(4);
    for _ in 0..k { if r.p(1, 2) { let b = r.bytes(3); c.extend(wrap(r, 0, false, 2, &b)); } else { c.extend(element_bytes(r, 1)); } }
    if r.p(1, 3) { c = s.to_vec(); }
    let mut v = if seq { let t = if r.p(1, 2) { 16 } else { 17 }; wrap(r, 0, true, t, &c) } else { let cl = if r.p(1, 8) { 0 } else { 1 + r.n(3) as u8 }; let cons = r.p(7, 8); let t = r.n(4) as u32; wrap(r, cl, cons, t, &c) };
    if r.p(1, 2) { v.extend(r.bytes(3)); }
    if r.p(1, 8) { mutate(r, &mut v); }
    v
}

// ---------------------------------------------------------------- C11 explicit tags
pub fn c11(s0: &[u8], r: &mut Rng) -> V {
    let s = &shape(s0, r, false)[..];
    let f = pick_f(r);
    let mut nt = false;
    let mut ts = tags_for(s, r); ts.push(r.n(4) as u32);
    for t in ts { for der in [false, true] {
        let w = match container(s, der) {
            R::Ok(n, (h, c)) => if h.class == 0 || h.tag != t || !h.cons { R::Err(K::Other) } else { match orac(f, c) { R::Ok(m, o) => R::Ok(n, (h, o, m)), e => e.err() } },
            e => e.err(),
        };
        nt |= w.is_ok();
        let wo = w.clone().map(|(h, o, _)| O { c: C::Tagged(h.class, t, Box::new(o)), h });
        if der { rq!(format!("parse_der_tagged_explicit({}, {:?})", t, f), s, parse_der_tagged_explicit(t, |i| call(f, i))(s), ob, wo.clone()); }
        else { rq!(format!("parse_ber_tagged_explicit({}, {:?})", t, f), s, parse_ber_tagged_explicit(Tag(t), |i| call(f, i))(s), ob, wo.clone()); }
        let wg = w.map(|(h, o, m)| (h, o, m));
        macro_rules! g { ($p:ident) => {{
            let got = res(s, $p::<_, _, _, BerError>(t, |c: &[u8], h: Header| { let (rem, o) = call(f, c)?; Ok((rem, (conv::h(&h), conv::o(&o), c.len() - rem.len()))) })(s), |v| v)?; eq!(format!("{}({}, {:?})", stringify!($p), t, f), got, wg.clone());
            let got = mres(s, $p::<_, _, _, MyErr>(t, |c: &[u8], h: Header| { let (rem, o) = call(f, c).map_err(nom::Err::convert)?; Ok((rem, (conv::h(&h), conv::o(&o), c.len() - rem.len()))) })(s), |v| v)?; eq!(format!("{}({}, {:?}) with a user error type", stringify!($p), t, f), got, wg.clone());
        }} }
        if der { g!(parse_der_tagged_explicit_g) } else { g!(parse_ber_tagged_explicit_g) }
    } }
    Ok(nt)
}
// ---------------------------------------------------------------- C12 implicit tags
pub fn c12(s0: &[u8], r: &mut Rng) -> V {
    let s1 = if r.p(1, 2) { // a primitive of a known type retagged
        let u = *r.pick(&TAGS); let c = content_for(r, u, 1); let cl = r.n(4) as u8; let t = r.n(4) as u32; let mut v = ident(r, cl, u == 16 || u == 17, t); v.extend(enc_len_form(r, c.len())); v.extend(c); v.extend(r.bytes(2)); v
    } else { shape(s0, r, false) };
    let s = &s1[..];
    let mut nt = false;
    let u = Tag(*r.pick(&TAGS));
    let mut ts = tags_for(s, r); ts.push(r.n(4) as u32);
    for t in ts { for der in [false, true] { for inner in [u, Tag(2), Tag(4), Tag(16)] {
        let rd = |c: &[u8], h: &H| if der { der_as(c, inner.0, h.len, h.cons, 50) } else { read_as(c, inner.0, h.len, h.cons, 50) };
        let w = wrap_c(s, der, Some(t), rd);
        nt |= w.is_ok();
        let wo = w.clone().map(|(h, c)| O { h, c });
        if der {
            rq!(format!("parse_der_tagged_implicit({}, {})", t, inner.0), s, parse_der_tagged_implicit(t, parse_der_content(inner))(s), ob, wo.clone());
            rq!(format!("parse_der_implicit({}, {})", t, inner.0), s, parse_der_implicit(s, t, parse_der_content(inner)), ob, wrap_c(s, false, Some(t), rd).map(|(h, c)| O { h, c }));
            rq!(format!("parse_der_tagged_implicit_g({}, {})", t, inner.0), s, parse_der_tagged_implicit_g::<_, _, _, BerError>(Tag(t), parse_der_content2(inner))(s), |c| conv::c(&c), w.clone().map(|x| x.1));
            let got = mres(s, parse_der_tagged_implicit_g::<_, _, _, MyErr>(t, |c: &[u8], h: Header, d| Ok((c, (conv::h(&h), c.to_vec(), d))))(s), |v| v)?;
            eq!("parse_der_tagged_implicit_g callback arguments", got, wrap_c(s, true, Some(t), |c, h| R::Ok(0, (h.clone(), c.to_vec(), 50usize))).map(|x| x.1));
        } else {
            rq!(format!("parse_ber_tagged_implicit({}, {})", t, inner.0), s, parse_ber_tagged_implicit(t, parse_ber_content(inner))(s), ob, wo.clone());
            rq!(format!("parse_ber_implicit({}, {})", t, inner.0), s, parse_ber_implicit(s, t, parse_ber_content(inner)), ob, wo.clone());
            rq!(format!("parse_ber_tagged_implicit_g({}, {})", t, inner.0), s, parse_ber_tagged_implicit_g::<_, _, _, BerError>(Tag(t), parse_ber_content2(inner))(s), |c| conv::c(&c), w.clone().map(|x| x.1));
            let got = mres(s, parse_ber_tagged_implicit_g::<_, _, _, MyErr>(t, |c: &[u8], h: Header, d| Ok((c, (conv::h(&h), c.to_vec(), d))))(s), |v| v)?;
            eq!("parse_ber_tagged_implicit_g callback arguments", got, wrap_c(s, false, Some(t), |c, h| R::Ok(0, (h.clone(), c.to_vec(), 50usize))).map(|x| x.1));
        }
    } } }
    Ok(nt)
}
// ---------------------------------------------------------------- C13 containers
pub fn c13(s0: &[u8], r: &mut Rng) -> V {
    let s = &shape(s0, r, true)[..];
    let f = pick_f(r);
    let mut nt = false;
    macro_rules! go { ($der:expr, $tag:expr, $of:ident, $of_v:ident, $def:ident, $def_g:ident, $mk:ident) => {{
        let w = wrap_c(s, $der, Some($tag), |c, _| list_of(f, c));
        nt |= w.is_ok();
        rq!(format!("{}({:?})", stringify!($of), f), s, $of(|i| call(f, i))(s), ob, w.clone().map(|(_, v)| O { h: cons_h($tag), c: C::$mk(v) }));
        rq!(format!("{}({:?})", stringify!($of_v), f), s, $of_v::<_, _, BerError>(|i| call(f, i))(s), |v| v.iter().map(conv::o).collect::<Vec<_>>(), w.clone().map(|x| x.1));
        let got = mres(s, $of_v::<_, _, MyErr>(|i| call(f, i).map_err(nom::Err::convert))(s), |v| v.iter().map(conv::o).collect::<Vec<_>>())?; eq!(format!("{}({:?}) with a user error type", stringify!($of_v), f), got, w.map(|x| x.1));
        // user function reading one element only
        let w = wrap_c(s, $der, Some($tag), |c, _| orac(f, c).map(|o| vec![o]));
        rq!(format!("{}({:?})", stringify!($def), f), s, $def(|i| { let (rem, o) = call(f, i)?; Ok((rem, vec![o])) })(s), ob, w.clone().map(|(_, v)| O { h: cons_h($tag), c: C::$mk(v) }));
        let w = wrap_c(s, $der, Some($tag), |c, h| orac(f, c).map(|o| (h.clone(), c.to_vec(), o))).map(|x| x.1);
        rq!(format!("{}({:?})", stringify!($def_g), f), s, $def_g::<_, _, BerError>(|i, h: Header| { let (rem, o) = call(f, i)?; Ok((rem, (conv::h(&h), i.to_vec(), conv::o(&o)))) })(s), |v| v, w.clone());
        let got = mres(s, $def_g::<_, _, MyErr>(|i, h: Header| { let (rem, o) = call(f, i).map_err(nom::Err::convert)?; Ok((rem, (conv::h(&h), i.to_vec(), conv::o(&o)))) })(s), |v| v)?; eq!(format!("{}({:?}) with a user error type", stringify!($def_g), f), got, w);
    }} }
    go!(false, 16, parse_ber_sequence_of, parse_ber_sequence_of_v, parse_ber_sequence_defined, parse_ber_sequence_defined_g, Seq);
    go!(false, 17, parse_ber_set_of, parse_ber_set_of_v, parse_ber_set_defined, parse_ber_set_defined_g, Set);
    go!(true, 16, parse_der_sequence_of, parse_der_sequence_of_v, parse_der_sequence_defined, parse_der_sequence_defined_g, Seq);
    go!(true, 17, parse_der_set_of, parse_der_set_of_v, parse_der_set_defined, parse_der_set_defined_g, Set);
    let w = wrap_c(s, false, None, |c, h| orac(f, c).map(|o| (h.clone(), c.to_vec(), o))).map(|x| x.1);
    rq!(format!("parse_ber_container({:?})", f), s, parse_ber_container::<_, _, BerError>(|i, h: Header| { let (rem, o) = call(f, i)?; Ok((rem, (conv::h(&h), i.to_vec(), conv::o(&o)))) })(s), |v| v, w);
    let w = wrap_c(s, true, None, |c, h| orac(f, c).map(|o| (h.clone(), c.to_vec(), o))).map(|x| x.1);
    rq!(format!("parse_der_container({:?})", f), s, parse_der_container::<_, _, BerError>(|i, h: Header| { let (rem, o) = call(f, i)?; Ok((rem, (conv::h(&h), i.to_vec(), conv::o(&o)))) })(s), |v| v, w);
    Ok(nt)
}
// ---------------------------------------------------------------- C14 optional
pub fn c14(s0: &[u8], r: &mut Rng) -> V {
    let s = &shape(s0, r, false)[..];
    let f = pick_f(r);
    let opt = |w: R<O>| match w { R::Ok(n, o) => R::Ok(n, O { h: o.h.clone(), c: C::Opt(Some(Box::new(o))) }), _ => R::Ok(0, O { h: H { class: 0, cons: false, tag: 0, len: Some(0), raw: None }, c: C::Opt(None) }) };
    let w = orac(f, s);
    let mut nt = w.is_ok();
    rq!(format!("parse_ber_optional({:?})", f), s, parse_ber_optional(|i| call(f, i))(s), ob, opt(w));
    let mut ts = tags_for(s, r); ts.push(r.n(4) as u32);
    for t in ts { 
        let w = match container(s, false) {
            R::Ok(n, (h, c)) => if h.class == 0 || h.tag != t || !h.cons { R::Err(K::Other) } else { match orac(f, c) { R::Ok(_, o) => R::Ok(n, O { c: C::Tagged(h.class, h.tag, Box::new(o)), h }), e => e.err() } },
            e => e.err(),
        };
        nt |= w.is_ok();
        rq!(format!("parse_ber_explicit_optional({}, {:?})", t, f), s, parse_ber_explicit_optional(s, Tag(t), |i| call(f, i)), ob, opt(w.clone()));
        rq!(format!("parse_der_explicit_optional({}, {:?})", t, f), s, parse_der_explicit_optional(s, Tag(t), |i| call(f, i)), ob, opt(w));
    }
    Ok(nt)
}
// ---------------------------------------------------------------- C15 header encoding
pub fn c15(s: &[u8], r: &mut Rng) -> V {
    let mut hs = vec![gen_h(r), gen_h(r), H { class: r.n(4) as u8, cons: r.p(1, 2), tag: r.n(300) as u32, len: Some(r.n(300)), raw: None }, H { class: r.n(4) as u8, cons: r.p(1, 2), tag: (r.next() >> 32 >> r.n(32)) as u32, len: Some((r.next() >> r.n(64)) as usize), raw: None }];
    if let Some((_, h)) = hd(s) { hs.push(h); }
    for h in hs {
        let mut lib = conv::header(&h);
        if let Some(x) = &h.raw { lib = lib.with_raw_tag(Some(std::borrow::Cow::Borrowed(&x[..]))); }
        let out = cookie_factory::gen_simple(ber_encode_header(&lib), Vec::new()).map_err(|e| format!("ber_encode_header({:?}): {:?}", h, e))?;
        eq!(format!("ber_encode_header({:?})", h), out.clone(), enc_hdr(&h));
        let (v, pos) = cookie_factory::gen(ber_encode_header(&lib), vec![0xee]).map_err(|e| format!("{:?}", e))?;
        eq!(format!("ber_encode_header({:?}) appended", h), (v, pos), ({ let mut v = vec![0xee]; v.extend(&out); v }, out.len() as u64));
        let mut x = out.clone(); x.push(0x55);
        if h.cons || h.len.is_some() {
            let (rem, h2) = ber_read_element_header(&x).map_err(|e| format!("re-reading {:02x?}: {:?}", out, e))?;
            eq!(format!("re-reading {:02x?}", out), (rem.len(), H { raw: None, ..conv::h(&h2) }), (1, H { raw: None, ..h.clone() }));
        }
    }
    Ok(true)
}
// ---------------------------------------------------------------- C16 object encoding
#[derive(Default)]
pub struct Sink(Vec<u8>);
impl std::io::Write for Sink { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.extend(b); Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
impl AsRef<[u8]> for Sink { fn as_ref(&self) -> &[u8] { &self.0 } }
pub fn c16(s: &[u8], r: &mut Rng) -> V {
    let o = match parse_ber_o(s) { R::Ok(_, o) if r.p(1, 2) && !has_time(&o.c) => o, _ => gen_o(r, 3, true) };
    let o = if r.p(1, 6) { O { h: gen_h(r), ..o } } else { o };
    let b = conv::obj(&o);
    let ok = |x: Result<Vec<u8>, cookie_factory::GenError>| x.map_err(|e| format!("{:?}", e));
    let (out, out2) = (ok(b.to_vec()), ok(cookie_factory::gen_simple(ber_encode_object(&b), Vec::new())));
    let sink = cookie_factory::gen_simple(ber_encode_object(&b), Sink::default()).map(|s| s.0).map_err(|e| format!("{:?}", e));
    let (t, cl) = (gen_h(r).tag, r.n(4) as u8);
    let ex = ok(cookie_factory::gen_simple(ber_encode_tagged_explicit(Tag(t), class_of(cl), &b), Vec::new()));
    let im = ok(cookie_factory::gen_simple(ber_encode_tagged_implicit(Tag(t), class_of(cl), &b), Vec::new()));
    let hh = gen_h(r); let lh = conv::header(&hh);
    let raw = ok(cookie_factory::gen_simple(ber_encode_object_raw(&lh, &b.content), Vec::new()));
    eq!(format!("to_vec vs ber_encode_object of {:?}", o), out.clone(), out2);
    eq!(format!("to_vec vs another writer of {:?}", o), out.clone(), sink);
    if let Some(w) = enc(&o) {
        eq!(format!("to_vec of {:?}", o), out, Ok(w.clone()));
        let c = enc_content(&o.c).unwrap();
        let mk = |h: H, c: &[u8]| { let mut v = enc_hdr(&h); v.extend(c); v };
        eq!(format!("ber_encode_tagged_explicit({},{},{:?})", t, cl, o), ex, Ok(mk(H { class: cl, cons: true, tag: t, len: Some(w.len()), raw: None }, &w)));
        eq!(format!("ber_encode_tagged_implicit({},{},{:?})", t, cl, o), im, Ok(mk(H { class: cl, cons: o.h.cons, tag: t, len: Some(c.len()), raw: None }, &c)));
        eq!(format!("ber_encode_object_raw({:?},{:?})", hh, o.c), raw, Ok(mk(hh.clone(), &c)));
        return Ok(true);
    }
    // no claim on the content bytes: the header must still fit them
    let v = out.map_err(|e| format!("to_vec of {:?}: {}", o, e))?;
    if let R::Ok(n, h) = hdr(&v, false) { eq!(format!("length in to_vec of {:?}", o), (h.len, h.tag, h.class, h.cons), (Some(v.len() - n), o.h.tag, o.h.class, o.h.cons)); } else { return Err(format!("to_vec of {:?} has no readable header", o)); }
    Ok(true)
}
// ---------------------------------------------------------------- C17 round trip
fn rt_ok(o: &O) -> bool { match &o.c { C::Utc(_) | C::Gen(_) | C::Opt(None) => false, C::Seq(l) | C::Set(l) => l.iter().all(rt_ok), C::Opt(Some(_)) | C::Tagged(..) => false, _ => true } }
pub fn c17(s: &[u8], r: &mut Rng) -> V {
    let mut nt = false;
    if let Ok((_, o)) = parse_ber(s) { let w = norm(&conv::o(&o)); if rt_ok(&w) { nt = true;
        let v = o.to_vec().map_err(|e| format!("{:?}", e))?;
        let (rem, o2) = parse_ber(&v).map_err(|e| format!("parse_ber({:02x?}) = {:?} serialises to {:02x?}, which does not parse: {:?}", s, w, v, e))?;
        eq!(format!("parse_ber(to_vec(parse_ber({:02x?})))", s), (rem.len(), norm(&conv::o(&o2))), (0, w));
        eq!("to_vec is a fixed point", o2.to_vec().ok(), Some(v)); } }
    if let Ok((_, o)) = parse_der(s) { let w = norm(&conv::o(&o)); if rt_ok(&w) {
        let v = o.to_vec().map_err(|e| format!("{:?}", e))?;
        let (rem, o2) = parse_der(&v).map_err(|e| format!("parse_der({:02x?}) = {:?} serialises to {:02x?}, which does not parse: {:?}", s, w, v, e))?;
        eq!(format!("parse_der(to_vec(parse_der({:02x?})))", s), (rem.len(), norm(&conv::o(&o2))), (0, w)); } }
    let o = gen_o(r, 3, false);
    let b = conv::obj(&o);
    let v = b.to_vec().map_err(|e| format!("{:?}", e))?;
    let (rem, o2) = parse_ber(&v).map_err(|e| format!("{:?} serialises to {:02x?}, which does not parse: {:?}", o, v, e))?;
    eq!(format!("parse_ber(to_vec({:?}))", o), (rem.len(), norm(&conv::o(&o2))), (0, norm(&o)));
    // tagged
    let (t, cl) = (gen_h(r).tag, 1 + r.n(3) as u8);
    let v = cookie_factory::gen_simple(ber_encode_tagged_explicit(Tag(t), class_of(cl), &b), Vec::new()).map_err(|e| format!("{:?}", e))?;
    let (rem, o2) = parse_ber_tagged_explicit(t, parse_ber)(&v).map_err(|e| format!("explicit tag {} around {:?} gives {:02x?}, which does not parse: {:?}", t, o, v, e))?;
    eq!(format!("explicit tag {} around {:?}", t, o), (rem.len(), norm(&conv::o(&o2)).c), (0, C::Tagged(cl, t, Box::new(norm(&o)))));
    eq!("re-encoding an explicitly tagged object", o2.to_vec().ok(), Some(v));
    if !matches!(o.c, C::Unk(..)) {
        let v = cookie_factory::gen_simple(ber_encode_tagged_implicit(Tag(t), class_of(cl), &b), Vec::new()).map_err(|e| format!("{:?}", e))?;
        if t == 0 && matches!(o.c, C::Eoc | C::Null) { } 
        let (rem, o2) = parse_ber_tagged_implicit(t, parse_ber_content(b.tag()))(&v).map_err(|e| format!("implicit tag {} on {:?} gives {:02x?}, which does not parse: {:?}", t, o, v, e))?;
        eq!(format!("implicit tag {} on {:?}", t, o), (rem.len(), norm(&conv::o(&o2)).c), (0, norm(&o).c));
    }
    let _ = nt;
    Ok(true)
}
// ---------------------------------------------------------------- C18 iteration and indexing
pub fn c18(s: &[u8], r: &mut Rng) -> V {
    let o = match parse_ber_o(s) { R::Ok(_, o) if r.p(1, 2) && !has_time(&o.c) => o, _ => { let o = gen_o(r, 2, true); if r.p(1, 2) { let n = r.n(7); let l: Vec<O> = (0..n).map(|_| gen_o(r, 1, true)).collect(); if r.p(1, 2) { O { h: cons_h(16), c: C::Seq(l) } } else { O { h: cons_h(17), c: C::Set(l) } } } else { o } } };
    let b = conv::obj(&o);
    let items: Option<Vec<O>> = match &b.content { BerObjectContent::Sequence(l) | BerObjectContent::Set(l) => Some(l.iter().map(conv::o).collect()), _ => None };
    let me = conv::o(&b);
    let n = items.as_ref().map_or(0, |v| v.len());
    let refs: Vec<O> = b.ref_iter().take(n + 3).map(conv::o).collect();
    eq!(format!("ref_iter of {:?}", o), refs, items.clone().unwrap_or_default());
    let own: Vec<O> = b.clone().into_iter().take(n + 3).map(|x| conv::o(&x)).collect();
    eq!(format!("into_iter of {:?}", o), own, items.clone().unwrap_or(vec![me]));
    let mut it = b.ref_iter(); for _ in 0..n { it.next(); } eq!(format!("ref_iter of {:?} after the end", o), (it.next().is_none(), it.next().is_none(), it.next().is_none()), (true, true, true));
    let mut it = b.clone().into_iter(); for _ in 0..n.max(1) { it.next(); } let e = (it.next().is_none(), it.next().is_none()); eq!(format!("into_iter of {:?} after the end", o), e, (true, true));
    for k in 0..n { eq!(format!("[{}] of {:?}", k, o), conv::o(&b[k]), items.as_ref().unwrap()[k].clone()); }
    Ok(n > 0)
}
// ---------------------------------------------------------------- C19 visitors
#[derive(Default)]
pub struct Rec { pub ev: Vec<(String, usize, String)>, pub only_count: bool, pub n: u64, pub edit: bool }
impl Rec { fn e(&mut self, n: &str, d: usize, v: impl FnOnce() -> String) { self.n += 1; if !self.only_count { self.ev.push((n.to_string(), d, v())); } } }
fn ty(c: &C) -> &'static str {
    match c { C::Eoc => "endofcontent", C::Bool(_) => "boolean", C::Int(_) => "integer", C::Bits(..) => "bitstring", C::Oct(_) => "octetstring", C::Null => "null", C::Enum(_) => "enum", C::Oid(_) => "oid", C::RelOid(_) => "relative_oid",
        C::Str(18, _) => "numericstring", C::Str(26, _) => "visiblestring", C::Str(19, _) => "printablestring", C::Str(22, _) => "ia5string", C::Str(12, _) => "utf8string", C::Str(20, _) => "teletexstring", C::Str(21, _) => "videotextstring", C::Str(7, _) => "objectdescriptor", C::Str(25, _) => "graphicstring", C::Str(..) => "generalstring",
        C::Bmp(_) => "bmpstring", C::Univ(_) => "universalstring", C::Seq(_) => "sequence", C::Set(_) => "set", C::Utc(_) => "utctime", C::Gen(_) => "generalizedtime", C::Opt(_) => "optional", C::Tagged(..) => "tagged", C::Unk(..) => "unknown" }
}
fn val(c: &C) -> String { match c {
    C::Eoc | C::Null => String::new(), C::Bool(b) => format!("{:?}", b), C::Bits(n, d) => format!("{}{:?}", n, d), C::Enum(e) => format!("{:?}", e),
    C::Int(d) | C::Oct(d) | C::Oid(d) | C::RelOid(d) | C::Bmp(d) | C::Univ(d) | C::Str(_, d) => format!("{:?}", d), C::Seq(l) | C::Set(l) => format!("{:?}", l), C::Utc(t) | C::Gen(t) => t.clone(),
    C::Opt(x) => format!("{:?}", x), C::Tagged(a, b, x) => format!("{} {} {:?}", a, b, x), C::Unk(h, d) => format!("{:?}{:?}", h, d) } }
fn trace(o: &O, d: usize, out: &mut Vec<(String, usize, String)>) {
    out.push(("ber".into(), d, format!("{:?}", o)));
    out.push((ty(&o.c).into(), d, val(&o.c)));
    if let C::Seq(l) | C::Set(l) = &o.c { for x in l { trace(x, d + 1, out); } }
}
fn fo(x: &BerObject) -> String { format!("{:?}", conv::o(x)) }
fn fl(l: &[BerObject]) -> String { format!("{:?}", l.iter().map(conv::o).collect::<Vec<_>>()) }
fn fopt(o: Option<&BerObject>) -> String { format!("{:?}", o.map(|x| Box::new(conv::o(x)))) }
impl<'a> Visit<'a> for Rec {
    fn visit_ber(&mut self, ber: &'_ BerObject<'a>, d: usize) { self.e("ber", d, || fo(ber)) }
    fn visit_ber_bitstring(&mut self, i: u8, x: &'a BitStringObject, d: usize) { self.e("bitstring", d, || format!("{}{:?}", i, x.data)) }
    fn visit_ber_bmpstring(&mut self, s: &'a [u8], d: usize) { self.e("bmpstring", d, || format!("{:?}", s)) }
    fn visit_ber_boolean(&mut self, b: bool, d: usize) { self.e("boolean", d, || format!("{:?}", b)) }
    fn visit_ber_endofcontent(&mut self, d: usize) { self.e("endofcontent", d, String::new) }
    fn visit_ber_enum(&mut self, e: u64, d: usize) { self.e("enum", d, || format!("{:?}", e)) }
    fn visit_ber_generalstring(&mut self, s: &'a str, d: usize) { self.e("generalstring", d, || format!("{:?}", s.as_bytes())) }
    fn visit_ber_generalizedtime(&mut self, t: &'a asn1_rs::ASN1DateTime, d: usize) { self.e("generalizedtime", d, || dt(t)) }
    fn visit_ber_graphicstring(&mut self, s: &'a str, d: usize) { self.e("graphicstring", d, || format!("{:?}", s.as_bytes())) }
    fn visit_ber_ia5string(&mut self, s: &'a str, d: usize) { self.e("ia5string", d, || format!("{:?}", s.as_bytes())) }
    fn visit_ber_integer(&mut self, s: &'a [u8], d: usize) { self.e("integer", d, || format!("{:?}", s)) }
    fn visit_ber_null(&mut self, d: usize) { self.e("null", d, String::new) }
    fn visit_ber_numericstring(&mut self, s: &'a str, d: usize) { self.e("numericstring", d, || format!("{:?}", s.as_bytes())) }
    fn visit_ber_oid(&mut self, o: &'a Oid, d: usize) { self.e("oid", d, || format!("{:?}", o.as_bytes())) }
    fn visit_ber_objectdescriptor(&mut self, s: &'a str, d: usize) { self.e("objectdescriptor", d, || format!("{:?}", s.as_bytes())) }
    fn visit_ber_octetstring(&mut self, b: &'a [u8], d: usize) { self.e("octetstring", d, || format!("{:?}", b)) }
    fn visit_ber_optional(&mut self, o: Option<&'a BerObject<'a>>, d: usize) { self.e("optional", d, || fopt(o)) }
    fn visit_ber_printablestring(&mut self, s: &'a str, d: usize) { self.e("printablestring", d, || format!("{:?}", s.as_bytes())) }
    fn visit_ber_relative_oid(&mut self, o: &'a Oid, d: usize) { self.e("relative_oid", d, || format!("{:?}", o.as_bytes())) }
    fn visit_ber_sequence(&mut self, l: &'_ [BerObject<'a>], d: usize) { self.e("sequence", d, || fl(l)) }
    fn visit_ber_set(&mut self, l: &'_ [BerObject<'a>], d: usize) { self.e("set", d, || fl(l)) }
    fn visit_ber_teletexstring(&mut self, s: &'a str, d: usize) { self.e("teletexstring", d, || format!("{:?}", s.as_bytes())) }
    fn visit_ber_tagged(&mut self, c: Class, t: Tag, o: &'_ BerObject<'a>, d: usize) { self.e("tagged", d, || format!("{} {} {:?}", class_n(c), t.0, conv::o(o))) }
    fn visit_ber_utctime(&mut self, t: &'a asn1_rs::ASN1DateTime, d: usize) { self.e("utctime", d, || dt(t)) }
    fn visit_ber_utf8string(&mut self, s: &'a str, d: usize) { self.e("utf8string", d, || format!("{:?}", s.as_bytes())) }
    fn visit_ber_universalstring(&mut self, s: &'a [u8], d: usize) { self.e("universalstring", d, || format!("{:?}", s)) }
    fn visit_ber_videotextstring(&mut self, s: &'a str, d: usize) { self.e("videotextstring", d, || format!("{:?}", s.as_bytes())) }
    fn visit_ber_visiblestring(&mut self, s: &'a str, d: usize) { self.e("visiblestring", d, || format!("{:?}", s.as_bytes())) }
    fn visit_ber_unknown(&mut self, a: &'_ Any<'a>, d: usize) { self.e("unknown", d, || { let (h, x) = any(a); format!("{:?}{:?}", h, x) }) }
}
impl<'a> VisitMut<'a> for Rec {
    fn visit_ber_mut(&mut self, ber: &'_ mut BerObject<'a>, d: usize) { self.e("ber", d, || fo(ber)); if self.edit { if let BerObjectContent::Null = ber.content { ber.content = BerObjectContent::Boolean(true); } } }
    fn visit_ber_bitstring_mut(&mut self, i: &mut u8, x: &'a mut BitStringObject, d: usize) { self.e("bitstring", d, || format!("{}{:?}", i, x.data)); if self.edit { *i = 0; x.data = &[7]; } }
    fn visit_ber_bmpstring_mut(&mut self, s: &'a mut &'_ [u8], d: usize) { self.e("bmpstring", d, || format!("{:?}", s)); if self.edit { *s = &[0, 65]; } }
    fn visit_ber_boolean_mut(&mut self, b: &'a mut bool, d: usize) { self.e("boolean", d, || format!("{:?}", b)); if self.edit { *b = !*b; } }
    fn visit_ber_endofcontent_mut(&mut self, d: usize) { self.e("endofcontent", d, String::new) }
    fn visit_ber_enum_mut(&mut self, e: &'a mut u64, d: usize) { self.e("enum", d, || format!("{:?}", e)); if self.edit { *e = 9; } }
    fn visit_ber_generalstring_mut(&mut self, s: &'a mut &'_ str, d: usize) { self.e("generalstring", d, || format!("{:?}", s.as_bytes())); if self.edit { *s = "Z"; } }
    fn visit_ber_generalizedtime_mut(&mut self, t: &'a asn1_rs::ASN1DateTime, d: usize) { self.e("generalizedtime", d, || dt(t)) }
    fn visit_ber_graphicstring_mut(&mut self, s: &'a mut &'_ str, d: usize) { self.e("graphicstring", d, || format!("{:?}", s.as_bytes())); if self.edit { *s = "Z"; } }
    fn visit_ber_ia5string_mut(&mut self, s: &'a mut &'_ str, d: usize) { self.e("ia5string", d, || format!("{:?}", s.as_bytes())); if self.edit { *s = "Z"; } }
    fn visit_ber_integer_mut(&mut self, s: &'a mut &'_ [u8], d: usize) { self.e("integer", d, || format!("{:?}", s)); if self.edit { *s = &[42]; } }
    fn visit_ber_null_mut(&mut self, d: usize) { self.e("null", d, String::new) }
    fn visit_ber_numericstring_mut(&mut self, s: &'a mut &'_ str, d: usize) { self.e("numericstring", d, || format!("{:?}", s.as_bytes())); if self.edit { *s = "1"; } }
    fn visit_ber_oid_mut(&mut self, o: &'a mut Oid, d: usize) { self.e("oid", d, || format!("{:?}", o.as_bytes())) }
    fn visit_ber_objectdescriptor_mut(&mut self, s: &'a mut &'_ str, d: usize) { self.e("objectdescriptor", d, || format!("{:?}", s.as_bytes())); if self.edit { *s = "Z"; } }
    fn visit_ber_octetstring_mut(&mut self, b: &'a [u8], d: usize) { self.e("octetstring", d, || format!("{:?}", b)) }
    fn visit_ber_optional_mut(&mut self, o: Option<&'a mut BerObject<'a>>, d: usize) { self.e("optional", d, || fopt(o.as_deref())) }
    fn visit_ber_printablestring_mut(&mut self, s: &'a mut &'_ str, d: usize) { self.e("printablestring", d, || format!("{:?}", s.as_bytes())); if self.edit { *s = "Z"; } }
    fn visit_ber_relative_oid_mut(&mut self, o: &'a mut Oid, d: usize) { self.e("relative_oid", d, || format!("{:?}", o.as_bytes())) }
    fn visit_ber_sequence_mut(&mut self, l: &'_ mut Vec<BerObject<'a>>, d: usize) { self.e("sequence", d, || fl(l)); if self.edit { l.push(BerObject::from_obj(BerObjectContent::Enum(3))); } }
    fn visit_ber_set_mut(&mut self, l: &'_ mut Vec<BerObject<'a>>, d: usize) { self.e("set", d, || fl(l)); if self.edit { l.pop(); } }
    fn visit_ber_teletexstring_mut(&mut self, s: &'a mut &'_ str, d: usize) { self.e("teletexstring", d, || format!("{:?}", s.as_bytes())); if self.edit { *s = "Z"; } }
    fn visit_ber_tagged_mut(&mut self, c: &'a mut Class, t: &'a mut Tag, o: &'a mut BerObject<'a>, d: usize) { self.e("tagged", d, || format!("{} {} {:?}", class_n(*c), t.0, conv::o(o))); if self.edit { t.0 = 77; } }
    fn visit_ber_utctime_mut(&mut self, t: &'a asn1_rs::ASN1DateTime, d: usize) { self.e("utctime", d, || dt(t)) }
    fn visit_ber_utf8string_mut(&mut self, s: &'a str, d: usize) { self.e("utf8string", d, || format!("{:?}", s.as_bytes())) }
    fn visit_ber_universalstring_mut(&mut self, s: &'a mut &'_ [u8], d: usize) { self.e("universalstring", d, || format!("{:?}", s)); if self.edit { *s = &[]; } }
    fn visit_ber_videotextstring_mut(&mut self, s: &'a mut &'_ str, d: usize) { self.e("videotextstring", d, || format!("{:?}", s.as_bytes())); if self.edit { *s = "Z"; } }
    fn visit_ber_visiblestring_mut(&mut self, s: &'a mut &'_ str, d: usize) { self.e("visiblestring", d, || format!("{:?}", s.as_bytes())); if self.edit { *s = "Z"; } }
    fn visit_ber_unknown_mut(&mut self, a: &'_ mut Any<'a>, d: usize) { self.e("unknown", d, || { let (h, x) = any(a); format!("{:?}{:?}", h, x) }); if self.edit { a.data = &[1]; } }
}
/// what the editing visitor leaves behind, and the trace it sees while editing
fn edited(o: &O, d: usize, out: &mut Vec<(String, usize, String)>) -> O {
    out.push(("ber".into(), d, format!("{:?}", o)));
    let c0 = if let C::Null = o.c { C::Bool(true) } else { o.c.clone() };
    out.push((ty(&c0).into(), d, val(&c0)));
    let c = match c0 {
        C::Bool(b) => C::Bool(!b), C::Bits(..) => C::Bits(0, vec![7]), C::Bmp(_) => C::Bmp(vec![0, 65]), C::Enum(_) => C::Enum(9), C::Int(_) => C::Int(vec![42]), C::Univ(_) => C::Univ(vec![]),
        C::Str(12, s) => C::Str(12, s), C::Str(18, _) => C::Str(18, vec![b'1']), C::Str(t, _) => C::Str(t, vec![b'Z']),
        C::Seq(mut l) => { l.push(O { h: H { class: 0, cons: false, tag: 10, len: Some(0), raw: None }, c: C::Enum(3) }); C::Seq(l.iter().map(|x| edited(x, d + 1, out)).collect()) }
        C::Set(mut l) => { l.pop(); C::Set(l.iter().map(|x| edited(x, d + 1, out)).collect()) }
        C::Tagged(c, _, o) => C::Tagged(c, 77, o), C::Unk(h, _) => C::Unk(h, vec![1]), c => c,
    };
    O { h: o.h.clone(), c }
}
pub fn c19(s: &[u8], r: &mut Rng) -> V {
    let o = match parse_ber_o(s) { R::Ok(_, o) if r.p(1, 2) && !has_time(&o.c) => o, _ => { let n = r.n(4); if r.p(1, 3) { gen_o(r, 3, true) } else { O { h: cons_h(16), c: C::Seq((0..n).map(|_| gen_o(r, 2, true)).collect()) } } } };
    let d = *r.pick(&[0usize, 0, 1, 7, 1 << 40]);
    let b = conv::obj(&o);
    let me = conv::o(&b);
    let mut want = vec![]; trace(&me, d, &mut want);
    let mut rec = Rec::default();
    if d == 0 { Visit::run(&mut rec, &b) } else { rec.run_at_(&b, d) }
    cmp_ev("Visit", &me, &rec.ev, &want)?;
    // VisitMut::run takes &'a mut BerObject<'a>: the object is leaked into a raw pointer so that it can be looked at afterwards
    for edit in [false, true] {
        let p: *mut BerObject = Box::into_raw(Box::new(conv::obj(&o)));
        let mut rec = Rec { edit, ..Rec::default() };
        { let m: &mut BerObject = unsafe { &mut *(p as *mut BerObject) }; if d == 0 { VisitMut::run(&mut rec, m) } else { VisitMut::run_at(&mut rec, m, d) } }
        let after = conv::o(unsafe { &*p });
        drop(unsafe { Box::from_raw(p) });
        let mut want = vec![];
        let w = if edit { edited(&me, d, &mut want) } else { trace(&me, d, &mut want); me.clone() };
        cmp_ev(if edit { "VisitMut (editing)" } else { "VisitMut" }, &me, &rec.ev, &want)?;
        eq!(format!("object after VisitMut (edit={}) on {:?}", edit, me), after, w);
    }
    Ok(matches!(o.c, C::Seq(_) | C::Set(_)))
}
impl Rec { fn run_at_<'a>(&mut self, b: &'a BerObject<'a>, d: usize) { Visit::run_at(self, b, d) } }
fn cmp_ev(n: &str, o: &O, got: &[(String, usize, String)], want: &[(String, usize, String)]) -> Result<(), String> {
    if got == want { return Ok(()); }
    let k = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    Err(format!("{} on {:?}: event {} is {:?}, expected {:?} (got {} events, expected {})", n, o, k, got.get(k), want.get(k), got.len(), want.len()))
}
// ---------------------------------------------------------------- C20 DER is a subset of BER
pub fn c20(s: &[u8], r: &mut Rng) -> V {
    let mut nt = false;
    let no = |x: BerObject| norm(&conv::o(&x));
    let same = |n: &str, a: R<O>, b: R<O>| -> Result<bool, String> { if a.is_ok() && a != b { return Err(format!("{}: DER gives {:?}, BER gives {:?}", n, a, b)); } Ok(a.is_ok()) };
    nt |= same("parse_der / parse_ber", res(s, parse_der(s), no)?, res(s, parse_ber(s), no)?)?;
    for d in [0usize, 1, 2, r.n(52)] { nt |= same("parse_der_recursive / parse_ber_recursive", res(s, parse_der_recursive(s, d), no)?, res(s, parse_ber_recursive(s, d), no)?)?; }
    for k in 0..25 { nt |= same(DER[k].0, res(s, (DER[k].2)(s), no)?, res(s, (BER[k].2)(s), no)?)?; }
    for t in tags_for(s, r) {
        nt |= same("parse_*_with_tag", res(s, parse_der_with_tag(s, t), no)?, res(s, parse_ber_with_tag(s, t), no)?)?;
        nt |= same("parse_*_tagged_explicit", res(s, parse_der_tagged_explicit(t, parse_der)(s), no)?, res(s, parse_ber_tagged_explicit(t, parse_ber)(s), no)?)?;
        let a = res(s, parse_der_slice(s, t), |x| x.to_vec())?; let b = res(s, parse_ber_slice(s, t), |x| x.to_vec())?; if a.is_ok() { eq!("parse_der_slice / parse_ber_slice", a, b); }
        for u in [1u32, 2, 3, 4, 12, 16] { nt |= same("parse_*_tagged_implicit", res(s, parse_der_tagged_implicit(t, parse_der_content(Tag(u)))(s), no)?, res(s, parse_ber_tagged_implicit(t, parse_ber_content(Tag(u)))(s), no)?)?; }
    }
    nt |= same("parse_*_sequence_of", res(s, parse_der_sequence_of(parse_der)(s), no)?, res(s, parse_ber_sequence_of(parse_ber)(s), no)?)?;
    nt |= same("parse_*_set_of", res(s, parse_der_set_of(parse_der)(s), no)?, res(s, parse_ber_set_of(parse_ber)(s), no)?)?;
    macro_rules! i { ($a:ident, $b:ident) => {{ let a = res(s, $a(s), |v| v)?; if a.is_ok() { eq!(stringify!($a), a, res(s, $b(s), |v| v)?); } }} }
    i!(parse_der_i32, parse_ber_i32); i!(parse_der_i64, parse_ber_i64); i!(parse_der_u32, parse_ber_u32); i!(parse_der_u64, parse_ber_u64);
    let a = res(s, der_read_element_header(s), |h| conv::h(&h))?; if a.is_ok() { eq!("der_read_element_header / ber_read_element_header", a, res(s, ber_read_element_header(s), |h| conv::h(&h))?); }
    // the oracle values as well: agreeing on a wrong value is no agreement
    rq!("parse_der", s, parse_der(s), ob, parse_der_o(s));
    rq!("parse_ber", s, parse_ber(s), ob, parse_ber_o(s));
    Ok(nt)
}
