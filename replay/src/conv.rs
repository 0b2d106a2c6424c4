//! Observation of the library's results as oracle values.
use crate::oracle::*;
use asn1_rs::{Any, Class, Header, Length, Tag};
use der_parser::ber::*;
use der_parser::error::*;

pub fn kind(e: &BerError) -> K {
    match e { BerError::BerMaxDepth => K::MaxDepth, BerError::Incomplete(_) => K::Incomplete, BerError::UnknownTag(_) => K::UnknownTag,
        BerError::IntegerTooLarge => K::TooLarge, BerError::IntegerNegative => K::Negative, _ => K::Other }
}
pub fn class_n(c: Class) -> u8 { match c { Class::Universal => 0, Class::Application => 1, Class::ContextSpecific => 2, Class::Private => 3 } }
pub fn class_of(c: u8) -> Class { match c { 0 => Class::Universal, 1 => Class::Application, 2 => Class::ContextSpecific, _ => Class::Private } }
pub fn h(x: &Header) -> H {
    H {
        class: class_n(x.class()), cons: x.constructed(), tag: x.tag().0,
        len: match x.length() { Length::Definite(l) => Some(l), Length::Indefinite => None },
        raw: x.raw_tag().map(|r| r.to_vec()),
    }
}
pub fn header(x: &H) -> Header<'static> {
    Header::new(class_of(x.class), x.cons, Tag(x.tag), match x.len { Some(l) => Length::Definite(l), None => Length::Indefinite })
}
pub fn c(x: &BerObjectContent) -> C {
    use BerObjectContent as B;
    let s = |t: u32, x: &str| C::Str(t, x.as_bytes().to_vec());
    match x {
        B::EndOfContent => C::Eoc,
        B::Boolean(b) => C::Bool(*b),
        B::Integer(i) => C::Int(i.to_vec()),
        B::BitString(n, b) => C::Bits(*n, b.data.to_vec()),
        B::OctetString(b) => C::Oct(b.to_vec()),
        B::Null => C::Null,
        B::Enum(e) => C::Enum(*e),
        B::OID(v) => C::Oid(v.as_bytes().to_vec()),
        B::RelativeOID(v) => C::RelOid(v.as_bytes().to_vec()),
        B::NumericString(x) => s(18, x),
        B::VisibleString(x) => s(26, x),
        B::PrintableString(x) => s(19, x),
        B::IA5String(x) => s(22, x),
        B::UTF8String(x) => s(12, x),
        B::T61String(x) => s(20, x),
        B::VideotexString(x) => s(21, x),
        B::ObjectDescriptor(x) => s(7, x),
        B::GraphicString(x) => s(25, x),
        B::GeneralString(x) => s(27, x),
        B::BmpString(x) => C::Bmp(x.to_vec()),
        B::UniversalString(x) => C::Univ(x.to_vec()),
        B::Sequence(l) => C::Seq(l.iter().map(o).collect()),
        B::Set(l) => C::Set(l.iter().map(o).collect()),
        B::UTCTime(t) => C::Utc(dt(t)),
        B::GeneralizedTime(t) => C::Gen(dt(t)),
        B::Optional(None) => C::Opt(None),
        B::Optional(Some(x)) => C::Opt(Some(Box::new(o(x)))),
        B::Tagged(cl, t, x) => C::Tagged(class_n(*cl), t.0, Box::new(o(x))),
        B::Unknown(a) => C::Unk(h(&a.header), a.data.to_vec()),
    }
}
pub fn o(x: &BerObject) -> O { O { h: h(&x.header), c: c(&x.content) } }
/// the result of a parser on `s`; a remainder that is not the tail of the input is reported as such
pub fn res<T, V>(s: &[u8], r: Result<(&[u8], T), nom::Err<BerError>>, f: impl FnOnce(T) -> V) -> Result<R<V>, String> {
    Ok(match r {
        Ok((rem, v)) => {
            if rem.len() > s.len() || rem != &s[s.len() - rem.len()..] || (!rem.is_empty() && rem.as_ptr() != s[s.len() - rem.len()..].as_ptr()) {
                return Err(format!("remainder is not the tail of the input: {} bytes {:02x?}", rem.len(), &rem[..rem.len().min(16)]));
            }
            R::Ok(s.len() - rem.len(), f(v))
        }
        Err(nom::Err::Incomplete(_)) => R::Inc,
        Err(nom::Err::Error(e)) => R::Err(kind(&e)),
        Err(nom::Err::Failure(e)) => R::Fail(kind(&e)),
    })
}
pub fn any(x: &Any) -> (H, Vec<u8>) { (h(&x.header), x.data.to_vec()) }

/// build a library object from an oracle value (dates excluded); borrows from the value
pub fn obj(x: &O) -> BerObject<'_> {
    let mut hd = header(&x.h);
    if let Some(r) = &x.h.raw { hd = hd.with_raw_tag(Some(std::borrow::Cow::Borrowed(&r[..]))); }
    BerObject::from_header_and_content(hd, cont(&x.c))
}
pub fn cont(x: &C) -> BerObjectContent<'_> {
    use asn1_rs::Oid;
    use BerObjectContent as B;
    let st = |s: &Vec<u8>| -> &str { std::str::from_utf8(unsafe { std::slice::from_raw_parts(s.as_ptr(), s.len()) }).unwrap() };
    match x {
        C::Eoc => B::EndOfContent,
        C::Bool(b) => B::Boolean(*b),
        C::Int(s) => B::Integer(s),
        C::Bits(n, s) => B::BitString(*n, BitStringObject { data: s }),
        C::Oct(s) => B::OctetString(s),
        C::Null => B::Null,
        C::Enum(e) => B::Enum(*e),
        C::Oid(s) => B::OID(Oid::new(std::borrow::Cow::Borrowed(&s[..]))),
        C::RelOid(s) => B::RelativeOID(Oid::new_relative(std::borrow::Cow::Borrowed(&s[..]))),
        C::Str(t, s) => { let s = st(s); match t {
            18 => B::NumericString(s), 26 => B::VisibleString(s), 19 => B::PrintableString(s), 22 => B::IA5String(s), 12 => B::UTF8String(s),
            20 => B::T61String(s), 21 => B::VideotexString(s), 7 => B::ObjectDescriptor(s), 25 => B::GraphicString(s), _ => B::GeneralString(s) } }
        C::Bmp(s) => B::BmpString(s),
        C::Univ(s) => B::UniversalString(s),
        C::Seq(l) => B::Sequence(l.iter().map(obj).collect()),
        C::Set(l) => B::Set(l.iter().map(obj).collect()),
        C::Opt(None) => B::Optional(None),
        C::Opt(Some(o)) => B::Optional(Some(Box::new(obj(o)))),
        C::Tagged(c, t, o) => B::Tagged(class_of(*c), Tag(*t), Box::new(obj(o))),
        C::Unk(h, s) => B::Unknown(Any::new(header(h), s)),
        C::Utc(_) | C::Gen(_) => {
            let t = asn1_rs::ASN1DateTime::new(2021, 2, 3, 4, 5, 6, None, asn1_rs::ASN1TimeZone::Z);
            if matches!(x, C::Utc(_)) { B::UTCTime(t) } else { B::GeneralizedTime(t) }
        }
    }
}
